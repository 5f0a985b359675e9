------------------------------- MODULE WmiClass -------------------------------
(* The classes of a WMI (CIM) repository: class definitions with their       *)
(* properties and qualifiers, the layout of the values of a class with its   *)
(* super classes, and the instances whose values follow that layout.         *)
EXTENDS Text

(* code page 1252 *)
High == <<8364, 0, 8218, 402, 8222, 8230, 8224, 8225, 710, 8240, 352, 8249, 338, 0, 381, 0,
          0, 8216, 8217, 8220, 8221, 8226, 8211, 8212, 732, 8482, 353, 8250, 339, 0, 382, 376>>
Ansi(c) == IF c >= 128 /\ c < 160 THEN High[c - 127] ELSE c
Decodes(s) == \A i \in 1..Len(s) : s[i] \notin {129, 141, 143, 144, 157}
LowerC(c) == IF (c >= 65 /\ c <= 90) \/ (c >= 192 /\ c <= 222 /\ c # 215) THEN c + 32
             ELSE CASE c = 352 -> 353 [] c = 338 -> 339 [] c = 381 -> 382 [] c = 376 -> 255 [] OTHER -> c
Lower(s) == [i \in 1..Len(s) |-> LowerC(s[i])]

NONE == [t |-> "none", v |-> <<>>]
Str(s) == [t |-> "str", v |-> s]
Num(s) == [t |-> "int", v |-> s]
Flt(s) == [t |-> "flt", v |-> s]
Bool(b) == [t |-> "bool", v |-> IF b THEN <<1>> ELSE <<>>]
Strs(ss) == [t |-> "strs", v |-> ss]
Shown(v) == CASE v.t = "none" -> Lit("None") [] v.t = "str" -> v.v [] v.t = "int" -> DecS(v.v) [] v.t = "bool" -> Lit(IF v.v = <<>> THEN "False" ELSE "True") [] v.t = "strs" -> ListText(v.v) [] OTHER -> <<>>
Note(s) == [k |-> "text", v |-> s]
OffI(i) == OffsetText(Nat2(i))

(* a string: flags and text up to a NUL *)
CimOk(d, o) == o < Len(d) /\ IndexOfVal(Sub(d, o + 1, Len(d)), 0) # 0 /\ Decodes(UpToNul(Sub(d, o + 1, Len(d))))
CimText(d, o) == LET s == UpToNul(Sub(d, o + 1, Len(d))) IN [i \in 1..Len(s) |-> Ansi(s[i])]
CimLines(d, o, what) == <<Ln(what \o " string flags", Hex(Norm(<<d[o + 1]>>), 2)), Ln(what \o " string", CimText(d, o))>>

TypeName(t) ==
  LET u == Sat(t) % 16384
  IN CASE u = 2 -> "CIM-TYPE-SINT16" [] u = 3 -> "CIM-TYPE-SINT32" [] u = 4 -> "CIM-TYPE-REAL32" [] u = 5 -> "CIM-TYPE-REAL64"
       [] u = 8 -> "CIM-TYPE-STRING" [] u = 11 -> "CIM-TYPE-BOOLEAN" [] u = 13 -> "CIM-TYPE-OBJECT" [] u = 16 -> "CIM-TYPE-SINT8"
       [] u = 17 -> "CIM-TYPE-UINT8" [] u = 18 -> "CIM-TYPE-UINT16" [] u = 19 -> "CIM-TYPE-UINT32" [] u = 20 -> "CIM-TYPE-SINT64"
       [] u = 21 -> "CIM-TYPE-UINT64" [] u = 101 -> "CIM-TYPE-DATETIME" [] u = 102 -> "CIM-TYPE-REFERENCE" [] u = 103 -> "CIM-TYPE-CHAR16"
       [] u = 8194 -> "CIM-ARRAY-SINT16" [] u = 8195 -> "CIM-ARRAY-SINT32" [] u = 8196 -> "CIM-ARRAY-REAL32" [] u = 8197 -> "CIM-ARRAY-REAL64"
       [] u = 8200 -> "CIM-ARRAY-STRING" [] u = 8203 -> "CIM-ARRAY-BOOLEAN" [] u = 8205 -> "CIM-ARRAY-OBJECT" [] u = 8208 -> "CIM-ARRAY-SINT8"
       [] u = 8209 -> "CIM-ARRAY-UINT8" [] u = 8210 -> "CIM-ARRAY-UINT16" [] u = 8211 -> "CIM-ARRAY-UINT32" [] u = 8212 -> "CIM-ARRAY-SINT64"
       [] u = 8213 -> "CIM-ARRAY-UINT64" [] u = 8293 -> "CIM-ARRAY-DATETIME" [] u = 8294 -> "CIM-ARRAY-REFERENCE" [] u = 8295 -> "CIM-ARRAY-CHAR16"
       [] OTHER -> "UNKNOWN"
TypeText(t) == Hex(t, 8) \o Lit(" (" \o TypeName(t) \o ")")

Predefined(i) == CASE i = <<1>> -> Lit("key") [] i = <<3>> -> Lit("read") [] i = <<4>> -> Lit("write") [] i = <<6>> -> Lit("provider")
                   [] i = <<7>> -> Lit("dynamic") [] i = <<10>> -> Lit("type") [] OTHER -> Lit("UNKNOWN_") \o Dec(i)
(* a name: one that is predefined or a string of the values                  *)
NameAt(q, p, d, what) ==
  LET top == q[p + 4] >= 128
      index == Norm(Sub(q, p, 3) \o <<q[p + 4] % 128>>)
      o == LEi(q, p, 4)
  IN IF top THEN [ok |-> TRUE, v |-> Predefined(index), ev |-> <<Ln(what \o " index", Dec(index)), Ln(what, Predefined(index))>>]
     ELSE IF ~CimOk(d, o) THEN [ok |-> FALSE, v |-> <<>>, ev |-> <<>>]
     ELSE [ok |-> TRUE, v |-> CimText(d, o), ev |-> CimLines(d, o, what)]

(* qualifiers by (lower case) name, the last value of a name is kept         *)
Put(r, n, v) == IF \E i \in 1..Len(r) : r[i].n = n THEN [i \in 1..Len(r) |-> IF r[i].n = n THEN [n |-> n, v |-> v] ELSE r[i]] ELSE Append(r, [n |-> n, v |-> v])
Sizes == [t \in {2, 3, 4, 5, 8, 11, 16, 17, 18, 19, 20, 21} |-> CASE t \in {16, 17} -> 1 [] t \in {2, 11, 18} -> 2 [] t \in {5, 20, 21} -> 8 [] OTHER -> 4]
Arrays == {8194, 8195, 8196, 8197, 8200, 8203, 8208, 8209, 8210, 8211, 8212, 8213}
Signed(t) == t \in {2, 3, 16, 20}
Number(t, b) == CASE t = 4 -> Flt(F32Text(b)) [] t = 5 -> Flt(F64Text(b)) [] t = 11 -> Bool(b # <<0, 0>>) [] Signed(t) -> Num(TwosC(b)) [] OTHER -> Num(<<0>> \o Norm(b))
NumberText(v) == IF v.t = "bool" THEN Lit(IF v.v = <<>> THEN "0" ELSE "1") ELSE IF v.t = "flt" THEN v.v ELSE DecS(v.v)
RECURSIVE QualifiersFrom(_, _, _, _, _, _)
QualifiersFrom(q, p, k, d, r, e) ==
  LET t == LEi(q, p + 5, 4)
      known == t \in (DOMAIN Sizes \cup Arrays)
      w == IF t \in Arrays THEN 4 ELSE Sizes[t]
      b == Sub(q, p + 9, w)
      o == LEi(q, p + 9, 4)
      label == "Qualifier: " \o ToString(k)
      name == NameAt(q, p, d, label \o " name")
      isStr == t = 8
      v == IF t \in Arrays THEN NONE ELSE IF isStr THEN Str(CimText(d, o)) ELSE Number(t, b)
      head == <<Ln("Name offset", OffsetText(LE(q, p, 4))), Ln("Unknown1", Hex(LE(q, p + 4, 1), 2)), Ln("Value data type", TypeText(LE(q, p + 5, 4)))>>
              \o (IF t \in Arrays \/ isStr THEN <<Ln("Value offset", OffsetText(LE(q, p + 9, 4)))>> ELSE <<Ln("Value", NumberText(v))>>)
  IN IF p >= Len(q) THEN [ok |-> TRUE, r |-> r, ev |-> e]
     ELSE IF ~Fits(q, p, 9) THEN [ok |-> FALSE, r |-> r, ev |-> e]
     ELSE IF ~known THEN [ok |-> FALSE, r |-> r, ev |-> e]
     ELSE IF ~Fits(q, p + 9, w) THEN [ok |-> FALSE, r |-> r, ev |-> e]
     ELSE IF ~name.ok THEN [ok |-> FALSE, r |-> r, ev |-> e]
     ELSE IF isStr /\ ~CimOk(d, o) THEN [ok |-> FALSE, r |-> r, ev |-> e]
     ELSE QualifiersFrom(q, p + 9 + w, k + 1, d, Put(r, Lower(name.v), v),
                         e \o head \o name.ev \o (IF isStr THEN CimLines(d, o, label \o " value") ELSE <<>>))
Qualifiers(q, at, d) == QualifiersFrom(q, 0, 0, d, <<>>, <<Note(Lit("Reading qualifiers at offset: ") \o OffI(at) \o <<46>>)>>)

(* the properties of a class definition: their descriptors are at p of c,    *)
(* their names and definitions in the values d                               *)
PutP(r, x) == IF \E i \in 1..Len(r) : r[i].n = x.n THEN [i \in 1..Len(r) |-> IF r[i].n = x.n THEN x ELSE r[i]] ELSE Append(r, x)
RECURSIVE PropertiesFrom(_, _, _, _, _, _, _)
PropertiesFrom(c, p, k, n, d, r, e) ==
  LET label == "Property: " \o ToString(k)
      name == NameAt(c, p, d, label \o " name")
      o == LEi(c, p + 4, 4)
      size == LEi(d, o + 14, 4)
      q == Qualifiers(Sub(d, o + 18, size - 4), o + 18, d)
      x == [n |-> name.v, index |-> LE(d, o + 4, 2), offset |-> LE(d, o + 6, 4), dt |-> LE(d, o, 4), q |-> q.r]
  IN IF k = n THEN [ok |-> TRUE, r |-> r, ev |-> e]
     ELSE IF ~name.ok THEN [ok |-> FALSE, r |-> r, ev |-> e]
     ELSE IF ~Fits(d, o, 18) THEN [ok |-> FALSE, r |-> r, ev |-> e]
     ELSE IF size < 4 THEN [ok |-> FALSE, r |-> r, ev |-> e]
     ELSE IF ~Fits(d, o + 18, size - 4) THEN [ok |-> FALSE, r |-> r, ev |-> e]
     ELSE IF ~q.ok THEN [ok |-> FALSE, r |-> r, ev |-> e]
     ELSE PropertiesFrom(c, p + 8, k + 1, n, d, PutP(r, x),
            e \o name.ev \o <<Hexd(label \o " definition", <<>>), Ln("  Value data type", TypeText(LE(d, o, 4))), Ln("  Index", Dec(LE(d, o + 4, 2))),
                              Ln("  Value data offset", OffsetText(LE(d, o + 6, 4))), Ln("  Level", Dec(LE(d, o + 10, 4))),
                              Ln("  Qualifiers block size", DecI(size)), Hexd("  Qualifiers block data", Sub(d, o + 18, size - 4))>> \o q.ev)

DescriptorLines(c, p, n) == IF n = 0 THEN <<Ln("Property descriptors", <<>>)>>
  ELSE <<Hexd("Property descriptors", <<>>)>> \o FlatSeq([i \in 1..n |-> <<Ln("    Property descriptor: " \o ToString(i - 1) \o " name offset", OffsetText(LE(c, p + 8 * i - 8, 4))),
                                                          Ln("    Property descriptor: " \o ToString(i - 1) \o " definition offset", OffsetText(LE(c, p + 8 * i - 4, 4)))>>])
NoClass == [ok |-> FALSE]
(* a class definition block c that is at an offset of its record             *)
Class(c, at) ==
  LET supsize == LEi(c, 9, 4)
      p1 == 9 + supsize                          \* size of the qualifiers
      sup == Sub(c, 13, supsize - 4)
      qsize == LEi(c, p1, 4)
      quals == Sub(c, p1 + 4, qsize - 4)
      p2 == p1 + qsize                           \* number of properties
      n == LEi(c, p2, 4)
      p3 == p2 + 4 + 8 * n                       \* default values
      dsize == LEi(c, 5, 4)
      p4 == p3 + dsize                           \* size of the values
      vsize == LEi(c, p4, 3) + 16777216 * (Sub(c, p4 + 3, 1)[1] % 8)
      d == Sub(c, p4 + 4, vsize)
      o == LEi(c, 1, 4)
      q == IF qsize > 4 THEN Qualifiers(quals, at + 13 + supsize, d) ELSE [ok |-> TRUE, r |-> <<>>, ev |-> <<>>]
      ps == PropertiesFrom(c, p2 + 4, 0, n, d, <<>>, <<Note(Lit("Reading class definition properties."))>>)
      size31 == LEi(Sub(c, p4, 3) \o <<Sub(c, p4 + 3, 1)[1] % 128>>, 0, 4)
  IN IF ~Fits(c, 0, 13) THEN NoClass
     ELSE IF supsize < 4 \/ ~Fits(c, 13, supsize - 4) THEN NoClass
     ELSE IF ~Fits(c, p1, 4) THEN NoClass
     ELSE IF qsize < 4 \/ ~Fits(c, p1 + 4, qsize - 4) THEN NoClass
     ELSE IF ~Fits(c, p2, 4) THEN NoClass
     ELSE IF n > Len(c) THEN NoClass
     ELSE IF ~Fits(c, p2 + 4, 8 * n) \/ ~Fits(c, p3, dsize) THEN NoClass
     ELSE IF ~Fits(c, p4, 4) THEN NoClass
     ELSE IF ~Fits(c, p4 + 4, vsize) \/ ~CimOk(d, o) THEN NoClass
     ELSE IF supsize > 4 /\ ~CimOk(sup, 0) THEN NoClass
     ELSE IF ~q.ok THEN NoClass
     ELSE IF ~ps.ok THEN NoClass
     ELSE [ok |-> TRUE,
           c |-> [name |-> CimText(d, o), super |-> IF supsize > 4 THEN Str(CimText(sup, 0)) ELSE NONE, q |-> q.r, ps |-> ps.r],
           ev |-> <<Note(Lit("Reading class definition block at offset: ") \o OffI(at) \o <<46>>),
                    Ln("Unknown1", Dec(LE(c, 0, 1))), Ln("Name offset", OffI(o)), Ln("Default value size", DecI(dsize)),
                    Ln("Super class name block size", DecI(supsize)), Hexd("Super class name block data", sup),
                    Ln("Qualifiers block size", DecI(qsize)), Hexd("Qualifiers block data", quals),
                    Ln("Number of property descriptors", DecI(n))>> \o DescriptorLines(c, p2 + 4, n)
                  \o <<Hexd("Default value data", Sub(c, p3, dsize)), Ln("Values data size", DecI(size31) \o Lit(" (") \o Hex(LE(c, p4, 4), 8) \o Lit(")")), Hexd("Values data", d)>>
                  \o CimLines(d, o, "Class name") \o (IF supsize > 4 THEN CimLines(sup, 0, "Super class name") ELSE <<>>) \o q.ev \o ps.ev]
(* how a class definition is shown *)
ClassText(c) ==
  <<Hexd("Class definition", <<>>), Ln("    Name", c.name)>>
  \o (IF c.super.t = "none" \/ c.super.v = <<>> THEN <<>> ELSE <<Ln("    Super class name", c.super.v)>>)
  \o [i \in 1..Len(c.q) |-> Ln("    Qualifier: " \o StrOf(c.q[i].n), Shown(c.q[i].v))]
  \o FlatSeq([j \in 1..Len(c.ps) |->
        <<Note(Lit("    Property: ") \o c.ps[j].n), Ln("        Index", Dec(c.ps[j].index)), Ln("        Value data offset", OffsetText(c.ps[j].offset))>>
        \o [i \in 1..Len(c.ps[j].q) |-> Ln("        Qualifier: " \o StrOf(c.ps[j].q[i].n), Shown(c.ps[j].q[i].v))]])
IsAbstract(c) == IF \E i \in 1..Len(c.q) : c.q[i].n = Lit("abstract") THEN c.q[CHOOSE i \in 1..Len(c.q) : c.q[i].n = Lit("abstract")].v ELSE Bool(FALSE)

-----------------------------------------------------------------------------
(* the layout of a class: its own properties after, and in place of, those   *)
(* of its super classes (cs: from the base class to the class itself)        *)
Get(q, n) == IF \E i \in 1..Len(q) : q[i].n = n THEN q[CHOOSE i \in 1..Len(q) : q[i].n = n].v ELSE NONE
Falsy(v) == v.t = "none" \/ v.v = <<>> \/ v.v = <<0>> \/ v.v \in {Lit("0.000000"), Lit("-0.000000")}
UpToColon(s) == LET i == IndexOfVal(s, 58) IN IF i = 0 THEN s ELSE SubSeq(s, 1, i - 1)
PropertySize(t) == LET u == Sat(t) IN IF u \in DOMAIN Sizes THEN Sizes[u] ELSE 4
PutK(r, x) == IF \E i \in 1..Len(r) : r[i].key = x.key THEN [i \in 1..Len(r) |-> IF r[i].key = x.key THEN x ELSE r[i]] ELSE Append(r, x)
RECURSIVE LayoutFrom(_, _)
LayoutFrom(ps, l) ==
  IF ps = <<>> THEN l
  ELSE LET p == ps[1]
           t == Get(p.q, Lit("type"))
           x == [key |-> Lower(p.n), name |-> p.n, dt |-> p.dt, offset |-> p.offset, size |-> PropertySize(p.dt), tq |-> UpToColon(Lower(t.v))]
       IN IF Falsy(t) THEN (IF \E i \in 1..Len(l.ps) : l.ps[i].key = Lower(p.n) THEN LayoutFrom(Tail(ps), l) ELSE [l EXCEPT !.ok = FALSE])
          ELSE IF t.t # "str" THEN [l EXCEPT !.ok = FALSE]
          ELSE LayoutFrom(Tail(ps), [l EXCEPT !.ps = PutK(@, x), !.max = IF l.any /\ ~LtN(l.max, x.offset) THEN @ ELSE x.offset,
                                              !.size = IF l.any /\ ~LtN(l.max, x.offset) THEN @ ELSE AddN(x.offset, Nat2(x.size)), !.any = TRUE])
Layout(cs) ==
  LET n == Len(cs)
      l == LayoutFrom(FlatSeq([i \in 1..n |-> cs[i].ps]), [ok |-> TRUE, ps |-> <<>>, any |-> FALSE, max |-> <<>>, size |-> <<>>])
  IN [ok |-> l.ok, name |-> cs[n].name, derivation |-> [i \in 1..(n - 1) |-> cs[n - i].name],
      super |-> IF n > 1 THEN Str(cs[n - 1].name) ELSE NONE, dynasty |-> IF n > 2 THEN Str(cs[n - 2].name) ELSE NONE,
      ps |-> l.ps, size |-> l.size]

-----------------------------------------------------------------------------
Fixed == {2, 3, 4, 5, 11, 16, 17, 18, 19, 20, 21}
QualifierType(s) == CASE s = Lit("boolean") -> 11 [] s = Lit("uint8") -> 17 [] s = Lit("uint16") -> 18 [] s = Lit("sint32") -> 3 [] s = Lit("uint32") -> 19
                      [] s = Lit("uint64") -> 21 [] s = Lit("sint8") -> 16 [] s = Lit("sint16") -> 2 [] s = Lit("sint64") -> 20
                      [] s = Lit("real32") -> 4 [] s = Lit("real64") -> 5 [] s = Lit("offset") -> 19 [] OTHER -> 0
RECURSIVE StringsFrom(_, _, _, _, _, _)
StringsFrom(d, o, k, n, label, r) ==
  LET s == LEi(d, o + 4 + 4 * k, 4)
  IN IF k = n THEN r
     ELSE IF ~CimOk(d, s) THEN [r EXCEPT !.ok = FALSE]
     ELSE StringsFrom(d, o, k + 1, n, label, [r EXCEPT !.v = Append(@, CimText(d, s)), !.ev = @ \o CimLines(d, s, label \o " value entry: " \o ToString(k))])
(* the value of a property: pv are the values of fixed size, d the others    *)
PropertyValue(x, pv, d) ==
  LET a == Sat(x.offset)
      dt == Sat(x.dt)
      label == "Property: " \o StrOf(x.name)
      qt == QualifierType(x.tq)
      w == IF dt \in Fixed THEN Sizes[qt] ELSE 4
      b == Sub(pv, a, w)
      o == LEi(pv, a, 4)
      n == LEi(d, o, 4)
      ss == StringsFrom(d, o, 0, n, label, [ok |-> TRUE, v |-> <<>>, ev |-> <<>>])
      bad == [ok |-> FALSE, v |-> NONE, ev |-> <<>>]
      Off(kind) == Ln(label \o " value: " \o kind \o " offset", Dec(LE(pv, a, 4)))
  IN IF dt \in Fixed /\ qt = 0 THEN bad
     ELSE IF a > Len(pv) \/ ~Fits(pv, a, w) THEN bad
     ELSE IF dt \in Fixed
          THEN [ok |-> TRUE, v |-> Number(qt, b), ev |-> <<Ln(label \o " value: " \o StrOf(x.tq), Shown(Number(qt, b)))>>]
     ELSE IF dt \in {8, 101, 102}
          THEN IF o = 0 THEN [ok |-> TRUE, v |-> NONE, ev |-> <<Off("string")>>]
               ELSE IF ~CimOk(d, o) THEN bad
               ELSE [ok |-> TRUE, v |-> Str(CimText(d, o)), ev |-> <<Off("string")>> \o CimLines(d, o, label \o " value")]
     ELSE IF dt = 8200
          THEN IF o = 0 THEN [ok |-> TRUE, v |-> NONE, ev |-> <<Off("string array")>>]
               ELSE IF ~Fits(d, o, 4) THEN bad
               ELSE IF n > Len(d) THEN bad
               ELSE IF ~Fits(d, o + 4, 4 * n) \/ ~ss.ok THEN bad
               ELSE [ok |-> TRUE, v |-> Strs(ss.v), ev |-> <<Off("string array")>> \o ss.ev]
     ELSE [ok |-> TRUE, v |-> NONE, ev |-> <<Off("array")>>]

RECURSIVE EntriesFrom(_, _, _, _, _)
EntriesFrom(c, p, k, n, e) ==
  LET size == LEi(c, p, 4)
  IN IF k = n THEN [ok |-> TRUE, p |-> p, ev |-> e]
     ELSE IF ~Fits(c, p, 4) THEN [ok |-> FALSE, p |-> p, ev |-> e]
     ELSE IF size < 4 \/ ~Fits(c, p + 4, size - 4) THEN [ok |-> FALSE, p |-> p, ev |-> e]
     ELSE EntriesFrom(c, p + size, k + 1, n, e \o <<Note(Lit("Dynamic type 2 entry: " \o ToString(k))), Ln("Data size", DecI(size)), Hexd("Data", Sub(c, p + 4, size - 4))>>)

NoInstance == [ok |-> FALSE]
(* an instance block c of a class with layout l *)
Instance(c, l) ==
  LET bits == (Len(l.ps) + 3) \div 4
      size == Sat(l.size)
      p1 == 5 + bits + size                       \* size of the qualifiers
      qsize == LEi(c, p1, 4)
      p2 == p1 + qsize                            \* type of the dynamic block
      kind == Sub(c, p2, 1)[1]
      n == LEi(c, p2 + 1, 4)
      es == IF kind = 2 THEN EntriesFrom(c, p2 + 5, 0, n, <<>>) ELSE [ok |-> TRUE, p |-> p2 + 1, ev |-> <<>>]
      d == Sub(c, es.p + 4, Len(c))
      o == LEi(c, 0, 4)
      pv == Sub(c, 5 + bits, size)
      vs == [i \in 1..Len(l.ps) |-> PropertyValue(l.ps[i], pv, d)]
  IN IF ~Fits(c, 0, 5) THEN NoInstance
     ELSE IF size > Len(c) THEN NoInstance
     ELSE IF ~Fits(c, 5, bits + size) \/ ~Fits(c, p1, 4) THEN NoInstance
     ELSE IF qsize < 4 \/ ~Fits(c, p1 + 4, qsize - 4) THEN NoInstance
     ELSE IF ~Fits(c, p2, 1) THEN NoInstance
     ELSE IF kind \notin {1, 2} \/ (kind = 2 /\ ~Fits(c, p2 + 1, 4)) THEN NoInstance
     ELSE IF kind = 2 /\ n > Len(c) THEN NoInstance
     ELSE IF ~es.ok THEN NoInstance
     ELSE IF ~Fits(c, es.p, 4) \/ ~CimOk(d, o) THEN NoInstance
     ELSE IF \E i \in 1..Len(vs) : ~vs[i].ok THEN NoInstance
     ELSE [ok |-> TRUE, name |-> CimText(d, o), ps |-> [i \in 1..Len(vs) |-> [n |-> l.ps[i].name, v |-> vs[i].v]],
           ev |-> <<Ln("Property state bits size", DecI(bits)), Ln("Property values data size", Dec(l.size)),
                    Ln("Class name offset", OffI(o)), Ln("Unknown1", Hex(LE(c, 4, 1), 2)), Hexd("Property state bits", Sub(c, 5, bits)),
                    Hexd("Property values data", pv), Ln("Qualifiers block size", DecI(qsize)), Hexd("Qualifiers block data", Sub(c, p1 + 4, qsize - 4)),
                    Ln("Dynamic block type", DecI(kind))>>
                  \o (IF kind = 2 THEN <<Note(Lit("Dynamic type 2 header")), Ln("Number of entries", DecI(n))>> \o es.ev ELSE <<>>)
                  \o <<Ln("Unknown offset", OffsetText(LE(c, es.p, 4))), Hexd("Values data", d)>> \o CimLines(d, o, "Class name")
                  \o FlatSeq([i \in 1..Len(vs) |-> vs[i].ev])]
InstanceText(i, ns, hash) ==
  <<Hexd("Instance", <<>>)>> \o (IF ns = <<>> THEN <<>> ELSE <<Ln("    Namespace", ns)>>) \o <<Ln("    Class name", i.name)>>
  \o (IF hash = <<>> THEN <<>> ELSE <<Ln("    Class name hash", hash)>>)

-----------------------------------------------------------------------------
(* object records                                                            *)
WideOk(s) == Utf16(s)[1]
ClassRecord(r) ==
  LET n == LEi(r, 0, 4)
      p == 4 + 2 * n
      size == LEi(r, p + 8, 4)
      name == Sub(r, 4, 2 * n)
      d == Sub(r, p + 12, size - 4)
  IN IF ~Fits(r, 0, 4) THEN [ok |-> FALSE]
     ELSE IF n > Len(r) THEN [ok |-> FALSE]
     ELSE IF ~Fits(r, 4, 2 * n) \/ ~WideOk(name) \/ ~Fits(r, p, 12) THEN [ok |-> FALSE]
     ELSE IF size < 4 \/ ~Fits(r, p + 12, size - 4) THEN [ok |-> FALSE]
     ELSE [ok |-> TRUE, super |-> Utf16(name)[2], d |-> d, at |-> p + 12,
           ev |-> <<Note(Lit("Reading class definition object record.")), Hexd("Object record data", r), Ln("Super class name size", DecI(n)),
                    Ln("Super class name", Utf16(name)[2]), Ln("Unknown date and time", FiletimeText(LE(r, p, 8))),
                    Ln("Class definition block size", DecI(size)), Hexd("Class definition block data", d)>>]
InstanceRecord(r, v1) ==
  LET h == IF v1 THEN 64 ELSE 128
      hash == Sub(r, 0, h)
      size == LEi(r, h + 16, 4)
      d == Sub(r, h + 20, size - 4)
  IN IF ~Fits(r, 0, h + 20) THEN [ok |-> FALSE]
     ELSE IF ~WideOk(hash) \/ size < 4 \/ ~Fits(r, h + 20, size - 4) THEN [ok |-> FALSE]
     ELSE [ok |-> TRUE, hash |-> Utf16(hash)[2], d |-> d, at |-> h + 20,
           ev |-> <<Note(Lit("Reading instance object record.")), Hexd("Object record data", r), Ln("Class name hash", Utf16(hash)[2]),
                    Ln("Unknown date and time1", FiletimeText(LE(r, h, 8))), Ln("Unknown date and time2", FiletimeText(LE(r, h + 8, 8))),
                    Ln("Instance block size", DecI(size)), Hexd("Instance block data", d)>>]
RECURSIVE WidesFrom(_, _, _, _)
WidesFrom(r, p, labels, e) ==
  LET n == LEi(r, p, 4)
      s == Sub(r, p + 4, 2 * n)
  IN IF labels = <<>> THEN [ok |-> Fits(r, p, 8), ev |-> e]
     ELSE IF ~Fits(r, p, 4) THEN [ok |-> FALSE, ev |-> e]
     ELSE IF n > Len(r) THEN [ok |-> FALSE, ev |-> e]
     ELSE IF ~Fits(r, p + 4, 2 * n) \/ ~WideOk(s) THEN [ok |-> FALSE, ev |-> e]
     ELSE WidesFrom(r, p + 4 + 2 * n, Tail(labels), e \o <<Ln(labels[1] \o " size", DecI(n)), Ln(labels[1], Utf16(s)[2])>>)
RegistrationRecord(r) == WidesFrom(r, 0, <<"Name space string", "Class name string", "Instance name string", "Index key string">>,
                                   <<Note(Lit("Reading registration object record.")), Hexd("Object record data", r)>>)
=============================================================================
