------------------------------- MODULE Keychain -------------------------------
(* MacOS keychain database: a schema (relations, indexes, attributes) that   *)
(* is itself stored in tables and says how the records of the other tables   *)
(* are to be read.                                                           *)
EXTENDS Text
CONSTANT Src(_)
VARIABLES sc, st, ev
vars == <<sc, st, ev>>
F == Src(sc)

Relation(id) == CASE id = <<>> -> "CSSM_DL_DB_SCHEMA_INFO"
                  [] id = <<1>> -> "CSSM_DL_DB_SCHEMA_INDEXES"
                  [] id = <<2>> -> "CSSM_DL_DB_SCHEMA_ATTRIBUTES"
                  [] id = <<3>> -> "CSSM_DL_DB_SCHEMA_PARSING_MODULE"
                  [] id = <<10>> -> "CSSM_DL_DB_RECORD_ANY"
                  [] id = <<11>> -> "CSSM_DL_DB_RECORD_CERT"
                  [] id = <<12>> -> "CSSM_DL_DB_RECORD_CRL"
                  [] id = <<13>> -> "CSSM_DL_DB_RECORD_POLICY"
                  [] id = <<14>> -> "CSSM_DL_DB_RECORD_GENERIC"
                  [] id = <<15>> -> "CSSM_DL_DB_RECORD_PUBLIC_KEY"
                  [] id = <<16>> -> "CSSM_DL_DB_RECORD_PRIVATE_KEY"
                  [] id = <<17>> -> "CSSM_DL_DB_RECORD_SYMMETRIC_KEY"
                  [] id = <<18>> -> "CSSM_DL_DB_RECORD_ALL_KEYS"
                  [] id = <<0, 0, 0, 128>> -> "CSSM_DL_DB_RECORD_GENERIC_PASSWORD"
                  [] id = <<1, 0, 0, 128>> -> "CSSM_DL_DB_RECORD_INTERNET_PASSWORD"
                  [] id = <<2, 0, 0, 128>> -> "CSSM_DL_DB_RECORD_APPLESHARE_PASSWORD"
                  [] id = <<3, 0, 0, 128>> -> "CSSM_DL_DB_RECORD_USER_TRUST"
                  [] id = <<4, 0, 0, 128>> -> "CSSM_DL_DB_RECORD_X509_CRL"
                  [] id = <<5, 0, 0, 128>> -> "CSSM_DL_DB_RECORD_UNLOCK_REFERRAL"
                  [] id = <<6, 0, 0, 128>> -> "CSSM_DL_DB_RECORD_EXTENDED_ATTRIBUTE"
                  [] id = <<0, 16, 0, 128>> -> "CSSM_DL_DB_RECORD_X509_CERTIFICATE"
                  [] id = <<0, 128, 0, 128>> -> "CSSM_DL_DB_RECORD_METADATA"
                  [] OTHER -> "UNKNOWN"
RelationText(id) == Hex(id, 8) \o Lit(" (" \o Relation(id) \o ")")
FormatName(t) == CASE t = <<>> -> "STRING" [] t = <<1>> -> "SINT32" [] t = <<2>> -> "UINT32" [] t = <<3>> -> "BIG_NUM"
                   [] t = <<4>> -> "REAL" [] t = <<5>> -> "TIME_DATE" [] t = <<6>> -> "BLOB" [] t = <<7>> -> "MULTI_UINT32"
                   [] t = <<8>> -> "COMPLEX" [] OTHER -> ""
FormatText(t) == Dec(t) \o (IF FormatName(t) = "" THEN Lit(" (UNKNOWN)") ELSE Lit(" (CSSM_DB_ATTRIBUTE_FORMAT_" \o FormatName(t) \o ")"))

NONE == [t |-> "none", v |-> <<>>]
IntV(n) == [t |-> "int", v |-> n]
Str(s) == [t |-> "str", v |-> s]
BAD == [t |-> "bad", v |-> <<>>]
KindOf(format) == IF format.t # "int" THEN "none"
                  ELSE CASE format.v = <<>> -> "string" [] format.v \in {<<1>>, <<2>>} -> "integer" [] format.v = <<5>> -> "time" [] format.v = <<6>> -> "blob" [] OTHER -> "none"
(* the value of an attribute: a is its offset (from the record, one is       *)
(* added to it), the values are at d (of size n) which is q into the record  *)
Value(kind, d, n, q, a) ==
  LET r == a - q - 1
      o == d + r
      left == n - r
      size == BEi(F, o, 4)
  IN IF a = 0 \/ kind = "none" THEN NONE
     ELSE IF r < 0 \/ r >= n THEN BAD
     ELSE CASE kind = "integer" -> IF left < 4 THEN BAD ELSE IntV(BE(F, o, 4))
            [] kind = "time" -> IF left < 16 \/ ~IsAscii(Sub(F, o, 16)) THEN BAD ELSE Str(RStrip0(Sub(F, o, 16)))
            [] kind = "string" -> IF left < 4 THEN BAD ELSE IF size > left - 4 THEN BAD ELSE IF ~IsAscii(Sub(F, o + 4, size)) THEN BAD ELSE Str(Sub(F, o + 4, size))
            [] OTHER -> IF left < 4 THEN BAD ELSE IF size > left - 4 THEN BAD ELSE Str(<<98>> \o BytesRepr(Sub(F, o + 4, size)))

(* ts: the tables, in the order they were first defined                      *)
At1(id) == {i \in 1..Len(st.ts) : st.ts[i].id = id}
Has(id) == At1(id) # {}
Idx(id) == CHOOSE i \in At1(id) : TRUE
AddRecord(ts, id, r) == [i \in 1..Len(ts) |-> IF ts[i].id = id THEN [ts[i] EXCEPT !.recs = Append(@, r)] ELSE ts[i]]
(* a record: values by name, the last value of a name is kept                *)
Pair(n, v) == [n |-> n, v |-> v]
Put(r, p) == IF \E i \in 1..Len(r) : r[i].n = p.n THEN [i \in 1..Len(r) |-> IF r[i].n = p.n THEN p ELSE r[i]] ELSE Append(r, p)
RECURSIVE PutAll(_, _)
PutAll(r, ps) == IF ps = <<>> THEN r ELSE PutAll(Put(r, ps[1]), SubSeq(ps, 2, Len(ps)))

InitSt == st = [pc |-> "header", tq |-> <<>>, base |-> 0, t |-> 0, rq |-> <<>>, kind |-> <<>>, size |-> 0, p |-> 0, ts |-> <<>>] /\ ev = <<>>
Fail == st' = [st EXCEPT !.pc = "fail"] /\ ev' = <<>>

ReadHeader ==
  /\ st.pc = "header"
  /\ IF ~Fits(F, 0, 20) \/ Sub(F, 0, 4) # Lit("kych") THEN Fail
     ELSE /\ st' = [st EXCEPT !.pc = "array", !.base = BEi(F, 12, 4)]
          /\ ev' = <<At("file header", 0), Ln("Signature", Lit("kych"))>> \o Fields(F, 0, TRUE,
               <<Field("Major format version", 4, 2, "dec"), Field("Minor format version", 6, 2, "dec"), Field("Data size", 8, 4, "dec"),
                 Field("Tables array offset", 12, 4, "hex8"), Field("Unknown1", 16, 4, "hex8")>>)
  /\ UNCHANGED sc
Offsets(o, n) == [i \in 1..n |-> BEi(F, o + 4 * (i - 1), 4)]
OffsetLines(label, o, n) == [i \in 1..n |-> Ln(label \o ": " \o ToString(i - 1), Hex(BE(F, o + 4 * (i - 1), 4), 8))]
ListHead(label, n) == IF n = 0 THEN <<Ln(label, <<>>)>> ELSE <<Hexd(label, <<>>)>>
ReadArray ==
  /\ st.pc = "array"
  /\ LET o == st.base
         n == BEi(F, o + 4, 4)
     IN IF ~Fits(F, o, 8) THEN Fail
        ELSE IF n > Len(F) THEN Fail
        ELSE IF ~Fits(F, o + 8, 4 * n) THEN Fail
        ELSE /\ st' = [st EXCEPT !.pc = "table", !.tq = Offsets(o + 8, n)]
             /\ ev' = <<At("tables array", o)>> \o Fields(F, o, TRUE, <<Field("Data size", 0, 4, "dec"), Field("Number of tables", 4, 4, "dec")>>)
                      \o ListHead("Table offsets", n) \o OffsetLines("Table offset", o + 8, n)
  /\ UNCHANGED sc
ReadTable ==
  /\ st.pc = "table" /\ st.tq # <<>>
  /\ LET o == st.base + st.tq[1]
         n == BEi(F, o + 24, 4)
     IN IF ~Fits(F, o, 28) THEN Fail
        ELSE IF n > Len(F) THEN Fail
        ELSE IF ~Fits(F, o + 28, 4 * n) THEN Fail
        ELSE /\ st' = [st EXCEPT !.pc = "record", !.tq = SubSeq(@, 2, Len(@)), !.t = o, !.size = BEi(F, o, 4), !.kind = BE(F, o + 4, 4),
                                 !.rq = SelectSeq(Offsets(o + 28, n), LAMBDA x : x # 0), !.p = o + 28 + 4 * n]
             /\ ev' = <<At("table header", o), Ln("Data size", Dec(BE(F, o, 4))), Ln("Record type", RelationText(BE(F, o + 4, 4)))>>
                      \o Fields(F, o, TRUE, <<Field("Number of records", 8, 4, "dec"), Field("Record array offset", 12, 4, "hex8"), Field("Unknown1", 16, 4, "hex8"),
                                              Field("Unknown2", 20, 4, "hex8"), Field("Number of records offsets", 24, 4, "dec")>>)
                      \o ListHead("Records offsets", n) \o OffsetLines("Record offset", o + 28, n)
  /\ UNCHANGED sc

RecordHeader(o) == <<At("record header", o)>> \o Fields(F, o, TRUE,
  <<Field("Data size", 0, 4, "dec"), Field("Record index", 4, 4, "dec"), Field("Unknown2", 8, 4, "hex8"),
    Field("Unknown3", 12, 4, "hex8"), Field("Key data size", 16, 4, "dec"), Field("Unknown4", 20, 4, "hex8")>>)
ValueOffsets(o, n) == <<Hexd("Attribute value offsets data", Sub(F, o + 24, 4 * n))>> \o OffsetLines("Attribute value offset", o + 24, n)
(* what a record of a size holds after p: none of it when it is too small    *)
Rest(o, p) == LET size == BEi(F, o, 4) - (p - o) IN IF size <= 0 THEN 0 ELSE IF size > Len(F) - p THEN Len(F) - p ELSE size
RestText(o, p) == IF BEi(F, o, 4) - (p - o) <= 0 THEN <<>> ELSE <<Hexd("Record trailing data", Sub(F, p, Rest(o, p)))>>
Taken(ts, p) == [st EXCEPT !.ts = ts, !.rq = SubSeq(@, 2, Len(@)), !.p = p]
RO == st.t + st.rq[1]
HasHeader(o, n) == Fits(F, o, 24 + 4 * n)

ReadInfo ==
  /\ st.pc = "record" /\ st.rq # <<>> /\ st.kind = <<>>
  /\ LET o == RO
         id == BE(F, o + 32, 4)
         n == BEi(F, o + 36, 4)
         name == Sub(F, o + 40, n)
         new == [id |-> id, name |-> name, cols |-> <<>>, recs |-> <<>>]
         ts == IF Has(id) THEN [st.ts EXCEPT ![Idx(id)] = new] ELSE Append(st.ts, new)
         p == o + 40 + n
     IN IF ~HasHeader(o, 2) THEN Fail
        ELSE IF Offsets(o + 24, 2) # <<33, 37>> \/ ~Fits(F, o + 32, 8) THEN Fail
        ELSE IF ~Fits(F, o + 40, n) THEN Fail
        ELSE IF ~IsAscii(name) THEN Fail
        ELSE IF ~\E i \in 1..Len(ts) : ts[i].id = <<>> THEN Fail
        ELSE /\ st' = Taken(AddRecord(ts, <<>>, <<Pair(Str(Lit("RelationID")), IntV(id)), Pair(Str(Lit("RelationName")), Str(name))>>), p + Rest(o, p))
             /\ ev' = RecordHeader(o) \o ValueOffsets(o, 2) \o <<At("schema information record values", o + 32), Ln("Relation identifier", Hex(id, 8)), Ln("Relation name size", DecI(n)), Ln("Relation name", name)>>
                      \o RestText(o, p)
  /\ UNCHANGED sc
IndexFields == <<Field("Relation identifier", 0, 4, "hex8"), Field("Index identifier", 4, 4, "hex8"), Field("Attribute identifier", 8, 4, "hex8"),
                 Field("Index type", 12, 4, "hex8"), Field("Index data location", 16, 4, "hex8")>>
IndexNames == <<"RelationID", "IndexID", "AttributeID", "IndexType", "IndexedDataLocation">>
ReadIndex ==
  /\ st.pc = "record" /\ st.rq # <<>> /\ st.kind = <<1>>
  /\ LET o == RO
         p == o + 64
     IN IF ~HasHeader(o, 5) THEN Fail
        ELSE IF Offsets(o + 24, 5) # <<45, 49, 53, 57, 61>> \/ ~Fits(F, o + 44, 20) THEN Fail
        ELSE IF ~Has(BE(F, o + 44, 4)) \/ ~Has(<<1>>) THEN Fail
        ELSE /\ st' = Taken(AddRecord(st.ts, <<1>>, [i \in 1..5 |-> Pair(Str(Lit(IndexNames[i])), IntV(BE(F, o + 40 + 4 * i, 4)))]), p + Rest(o, p))
             /\ ev' = RecordHeader(o) \o ValueOffsets(o, 5) \o <<At("schema indexes record values", o + 44)>> \o Fields(F, o + 44, TRUE, IndexFields) \o RestText(o, p)
  /\ UNCHANGED sc
Null(v, text) == IF v.t = "none" THEN Lit("NULL") ELSE text
ReadAttribute ==
  /\ st.pc = "record" /\ st.rq # <<>> /\ st.kind = <<2>>
  /\ LET o == RO
         a == Offsets(o + 24, 6)
         size == BEi(F, o, 4) - 48
         V(kind, i) == Value(kind, o + 48, size, 48, a[i])
         rel == V("integer", 1)
         id == V("integer", 2)
         nf == V("integer", 3)
         named == V("string", 4)
         f == V("integer", 6)
         code == IF id.t = "none" THEN NONE ELSE Str(Sub(F, o + 48 + a[2] - 49, 4))
         name == IF named.t = "none" THEN code ELSE named
         cols == [st.ts EXCEPT ![Idx(rel.v)].cols = Append(@, [id |-> id, name |-> name, format |-> f])]
     IN IF ~HasHeader(o, 6) \/ size < 0 THEN Fail
        ELSE IF ~Fits(F, o + 48, size) THEN Fail
        ELSE IF \E v \in {rel, id, nf, named, f} : v.t = "bad" THEN Fail
        ELSE IF rel.t = "none" THEN Fail
        ELSE IF ~Has(rel.v) \/ ~IsAscii(name.v) \/ ~Has(<<2>>) THEN Fail
        ELSE /\ st' = Taken(AddRecord(cols, <<2>>, <<Pair(Str(Lit("RelationID")), rel), Pair(Str(Lit("AttributeID")), id), Pair(Str(Lit("AttributeNameFormat")), nf),
                                                      Pair(Str(Lit("AttributeName")), name), Pair(Str(Lit("AttributeFormat")), f)>>), o + 48 + size)
             /\ ev' = RecordHeader(o) \o ValueOffsets(o, 6) \o <<Hexd("Attribute values data", Sub(F, o + 48, size)),
                  Ln("Relation identifier", RelationText(rel.v)), Ln("Attribute identifier", Null(id, Hex(id.v, 8))),
                  Ln("Attribute name data type", Null(nf, FormatText(nf.v))), Ln("Attribute name", Null(named, named.v)), Ln("Attribute data type", Null(f, FormatText(f.v)))>>
  /\ UNCHANGED sc
(* a record of a table that the schema defines                               *)
ReadRecord ==
  /\ st.pc = "record" /\ st.rq # <<>> /\ st.kind \notin {<<>>, <<1>>, <<2>>}
  /\ LET o == RO
         cols == st.ts[Idx(st.kind)].cols
         n == Len(cols)
         q == 24 + 4 * n
         a == Offsets(o + 24, n)
         size == BEi(F, o, 4) - q
         key == IF BEi(F, o + 16, 4) > size THEN size ELSE BEi(F, o + 16, 4)
         vals == [i \in 1..n |-> Value(KindOf(cols[i].format), o + q, size, q, a[i])]
         later(i) == {a[j] - q - 1 : j \in {k \in 1..n : a[k] > a[i]}} \cup {size}
         end(i) == LET s == {x \in later(i) : x > a[i] - q - 1} IN
                   IF s = {} THEN a[i] - q - 1 ELSE LET m == CHOOSE x \in s : \A y \in s : x <= y IN IF m > size THEN size ELSE m
         label(i) == "Attribute value: " \o ToString(i - 1) \o " (" \o (IF cols[i].name.v = <<>> THEN "NULL" ELSE StrOf(cols[i].name.v)) \o ") data"
         data(i) == IF a[i] <= q \/ a[i] - q - 1 >= size THEN <<>> ELSE Sub(F, o + q + a[i] - q - 1, end(i) - (a[i] - q - 1))
     IN IF ~Has(st.kind) \/ ~Fits(F, o, 24) THEN Fail
        ELSE IF n = 0 THEN /\ st' = Taken(AddRecord(st.ts, st.kind, <<>>), o + 24)
                           /\ ev' = RecordHeader(o)
        ELSE IF ~HasHeader(o, n) \/ size < 0 THEN Fail
        ELSE IF ~Fits(F, o + q, size) THEN Fail
        ELSE IF \E i \in 1..n : vals[i].t = "bad" THEN Fail
        ELSE /\ st' = Taken(AddRecord(st.ts, st.kind, PutAll(<<>>, [i \in 1..n |-> Pair(cols[i].name, vals[i])])), o + q + size)
             /\ ev' = RecordHeader(o) \o ValueOffsets(o, n)
                      \o (IF BE(F, o + 16, 4) = <<>> THEN <<>> ELSE <<Hexd("Key data", Sub(F, o + q, key))>>)
                      \o <<Hexd("Attribute values data", Sub(F, o + q + key, size - key))>>
                      \o [i \in 1..n |-> Hexd(label(i), data(i))]
  /\ UNCHANGED sc
EndTable ==
  /\ st.pc = "record" /\ st.rq = <<>>
  /\ LET size == st.size - (st.p - st.t)
         n == IF size > Len(F) - st.p THEN Len(F) - st.p ELSE size
     IN /\ st' = [st EXCEPT !.pc = "table"]
        /\ ev' = IF size > 0 THEN <<Hexd("Table trailing data", Sub(F, st.p, n))>> ELSE <<>>
  /\ UNCHANGED sc
Finish ==
  /\ st.pc = "table" /\ st.tq = <<>>
  /\ st' = [st EXCEPT !.pc = "done"]
  /\ ev' = [i \in 1..Len(st.ts) |-> [k |-> "!table", v |-> st.ts[i]]]
  /\ UNCHANGED sc
Next == ReadHeader \/ ReadArray \/ ReadTable \/ ReadInfo \/ ReadIndex \/ ReadAttribute \/ ReadRecord \/ EndTable \/ Finish
Done == st.pc \in {"done", "fail"}
Outcomes == IF st.pc = "done" THEN {"ok"} ELSE {"ParseError"}
-----------------------------------------------------------------------------
(* every record of a table that is not part of the schema has exactly the    *)
(* attributes the schema defines, and every column belongs to a relation     *)
SchemaFollowed == \A i \in 1..Len(st.ts) :
   st.ts[i].id \notin {<<>>, <<1>>, <<2>>} =>
     \A j \in 1..Len(st.ts[i].recs) : \A k \in 1..Len(st.ts[i].recs[j]) : \E c \in 1..Len(st.ts[i].cols) : st.ts[i].cols[c].name = st.ts[i].recs[j][k].n
Distinct == \A i, j \in 1..Len(st.ts) : st.ts[i].id = st.ts[j].id => i = j
Grows == [][Len(st'.ts) >= Len(st.ts)]_vars
=============================================================================
