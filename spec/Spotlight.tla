------------------------------ MODULE Spotlight ------------------------------
(* Apple Spotlight store database: a header, a map of record pages, five     *)
(* property tables (chains of pages, or streams maps in files beside the     *)
(* database) and the records, whose attributes are typed by the first table  *)
(* and may refer to the others.                                              *)
EXTENDS Text
CONSTANT Src(_)
VARIABLES sc, st, ev
vars == <<sc, st, ev>>
(* the input: size and blocks of 4096 bytes (trailing zeros left out) of the *)
(* database, the streams maps, whether a report is written, the identifiers  *)
(* asked for, and what the compressed data of the blocks decompresses to     *)
I == Src(sc)
ByteAt(p) == LET b == I.blk[(p \div 4096) + 1] q == (p % 4096) + 1 IN IF q <= Len(b) THEN b[q] ELSE 0
Has(o, n) == o <= I.size /\ n <= I.size - o
Rd(o, n) == [i \in 1..MaxOf(0, MinOf(n, I.size - o)) |-> ByteAt(o + i - 1)]

(* the number of additional bytes is the number of leading one bits          *)
Ones(b) == CASE b < 128 -> 0 [] b < 192 -> 1 [] b < 224 -> 2 [] b < 240 -> 3 [] b < 248 -> 4 [] b < 252 -> 5 [] b < 254 -> 6 [] b < 255 -> 7 [] OTHER -> 8
NoInt == [ok |-> FALSE, v |-> <<>>, n |-> 0]
VI(d, p) ==
  IF p >= Len(d) THEN NoInt
  ELSE LET k == Ones(d[p + 1])
           top == IF k > 4 THEN 0 ELSE d[p + 1] % Pow2(7 - k)
       IN IF p + k >= Len(d) THEN NoInt
          ELSE [ok |-> TRUE, v |-> Norm(Rev(Sub(d, p + 1, k)) \o <<top>>), n |-> k + 1]
(* a string at p that ends with a zero byte: n is its size with the zero     *)
NoStr == [ok |-> FALSE, v |-> <<>>, n |-> 0]
CStr(d, p) ==
  IF p >= Len(d) THEN NoStr
  ELSE LET i == IndexOfVal(SubSeq(d, p + 1, Len(d)), 0)
           u == Utf8(Sub(d, p, i - 1))
       IN IF i = 0 THEN NoStr ELSE [ok |-> u[1], v |-> u[2], n |-> i]

Type(i, d, p, s) == [i |-> i, k |-> "type", t |-> d[p + 1], p |-> d[p + 2], s |-> s, l |-> <<>>]
Named(i, s) == [i |-> i, k |-> "value", t |-> 0, p |-> 0, s |-> s, l |-> <<>>]
Index(i, l) == [i |-> i, k |-> "index", t |-> 0, p |-> 0, s |-> <<>>, l |-> l]
NoEntry == [i |-> <<>>, k |-> "none", t |-> 0, p |-> 0, s |-> <<>>, l |-> <<>>]
(* the last entry stored for an index counts                                 *)
Lookup(t, i) == LET w == {j \in 1..Len(t) : t[j].i = i} IN IF w = {} THEN NoEntry ELSE t[CHOOSE j \in w : \A m \in w : m <= j]
NameOf(i) == LET e == Lookup(st.tab[2], i) IN IF e.k = "value" THEN e.s ELSE <<>>

InitSt == /\ st = [pc |-> "header", q |-> 0, e |-> 0, root |-> <<>>, map |-> <<>>, t |-> 1, bn |-> 0, seen |-> {}, next |-> 0, kind |-> 0,
                   end |-> 0, k |-> 0, d |-> <<>>, rng |-> <<>>, tab |-> <<<<>>, <<>>, <<>>, <<>>, <<>>>>, m |-> 1, out |-> <<>>, dict |-> <<>>,
                   pages |-> <<>>, descs |-> <<>>, todo |-> <<>>, ask |-> FALSE, p |-> 0, ty |-> <<>>, item |-> <<>>, head |-> [id |-> <<>>, item |-> <<>>, parent |-> <<>>, time |-> <<>>]]
          /\ ev = <<>>
Fail == st' = [st EXCEPT !.pc = "fail"] /\ ev' = <<>>
FailEv(e) == st' = [st EXCEPT !.pc = "fail"] /\ ev' = e

(* ---- header and map ---- *)
HeaderFields == <<Field("Signature", 0, 4, "stream"), Field("Flags", 4, 4, "hex8"), Field("Unknown1", 8, 4, "hex8"), Field("Unknown2", 12, 4, "hex8"),
  Field("Unknown3", 16, 4, "hex8"), Field("Unknown4", 20, 4, "hex8"), Field("Unknown5", 24, 4, "hex8"), Field("Unknown6", 28, 4, "hex8"),
  Field("Unknown7", 32, 4, "hex8"), Field("Map offset", 36, 4, "hex8"), Field("Map size", 40, 4, "dec"), Field("Page size", 44, 4, "dec"),
  Field("Metadata types block number", 48, 4, "dec"), Field("Metadata values block number", 52, 4, "dec"),
  Field("Unknown values 0x41 block number", 56, 4, "dec"), Field("Metadata lists block number", 60, 4, "dec"),
  Field("Metadata localized strings block number", 64, 4, "dec"), Field("Unknown8", 68, 256, "dump")>>
ReadHeader ==
  /\ st.pc = "header"
  /\ IF ~Has(0, 580) THEN Fail
     ELSE LET h == Rd(0, 580)
              path == Utf8(UpToNul(Sub(h, 324, 256)))
              mo == LEi(h, 36, 4)
              ms == LEi(h, 40, 4)
          IN IF Sub(h, 0, 4) # Lit("8tsd") \/ ~path[1] THEN Fail
             ELSE /\ st' = [st EXCEPT !.pc = "map", !.q = mo, !.e = mo + ms, !.root = [i \in 1..5 |-> LEi(h, 44 + 4 * i, 4)]]
                  /\ ev' = <<At("file header", 0)>> \o Fields(h, 0, FALSE, HeaderFields) \o <<Ln("Path", path[2])>>
                           \o (IF mo > 580 THEN <<Hexd("Trailing data", Rd(580, mo - 580))>> ELSE <<>>)
MapFields == <<Field("Signature", 0, 4, "stream"), Field("Page size", 4, 4, "dec"), Field("Number of map values", 8, 4, "dec"), Field("Unknown1", 12, 4, "hex8"), Field("Unknown2", 16, 4, "hex8")>>
MapValue(o) == <<At("map page value", o)>> \o Fields(Rd(o, 16), 0, FALSE, <<Field("Unknown1", 0, 8, "hex8"), Field("Block number", 8, 4, "dec"), Field("Unknown2", 12, 4, "hex8")>>)
ReadMap ==
  /\ st.pc = "map"
  /\ IF st.q >= st.e THEN st' = [st EXCEPT !.pc = "table"] /\ ev' = <<>>
     ELSE IF ~Has(st.q, 20) THEN Fail
     ELSE LET h == Rd(st.q, 20)
              size == LEi(h, 4, 4)
              n == LEi(h, 8, 4)
              e0 == <<At("map page header", st.q)>> \o Fields(h, 0, FALSE, MapFields)
          IN IF Sub(h, 0, 4) \notin {Lit("1mbd"), Lit("2mbd")} THEN Fail
             ELSE IF n > 60000000 \/ size < 20 + 16 * n \/ ~Has(st.q + 20, 16 * n) THEN Fail
             ELSE /\ st' = [st EXCEPT !.q = st.q + size, !.map = @ \o [i \in 1..n |-> LEi(Rd(st.q + 4 + 16 * i, 16), 8, 4)]]
                  /\ ev' = e0 \o FlatSeq([i \in 1..n |-> MapValue(st.q + 4 + 16 * i)]) \o <<Hexd("Page data", Rd(st.q + 20 + 16 * n, size - 20 - 16 * n))>>

(* ---- property tables ---- *)
StartTable ==
  /\ st.pc = "table"
  /\ ev' = <<>>
  /\ st' = IF st.t = 6 THEN [st EXCEPT !.pc = "recpage"]
           ELSE IF st.root[st.t] = 0 THEN [st EXCEPT !.pc = "streams"]
           ELSE [st EXCEPT !.pc = "page", !.bn = st.root[st.t], !.seen = {}]
NextTable == [st EXCEPT !.pc = "table", !.t = @ + 1]

PageFields == <<Field("Signature", 0, 4, "stream"), Field("Page size", 4, 4, "dec"), Field("Used page size", 8, 4, "dec"), Field("Property table type", 12, 4, "hex8"), Field("Uncompressed page size", 16, 4, "dec")>>
PageHere(bn) == bn <= 200000 /\ Has(bn * 4096, 20) /\ Sub(Rd(bn * 4096, 20), 0, 4) = Lit("2pbd") /\ LEi(Rd(bn * 4096, 20), 4, 4) >= 20
PageEv(bn, h) ==
  LET o == bn * 4096 size == LEi(h, 4, 4) IN
  <<At("property page header", o), Ln("Block number", DecI(bn)), Ln("Page number", DecI(o \div size))>> \o Fields(h, 0, FALSE, PageFields)
PageData(bn, h) == Rd(bn * 4096 + 20, LEi(h, 4, 4) - 20)
Whole(bn, h) == Has(bn * 4096 + 20, LEi(h, 4, 4) - 20)

ReadPage ==
  /\ st.pc = "page"
  /\ IF st.bn = 0 THEN st' = NextTable /\ ev' = <<>>
     ELSE IF st.bn \in st.seen \/ ~PageHere(st.bn) THEN Fail
     ELSE LET h == Rd(st.bn * 4096, 20)
              kind == LEi(h, 12, 4)
              d == PageData(st.bn, h)
          IN IF kind \notin {17, 33, 65, 129} \/ ~Whole(st.bn, h) \/ Len(d) < 12 THEN FailEv(PageEv(st.bn, h))
             ELSE /\ st' = [st EXCEPT !.pc = IF kind = 65 THEN "pageend" ELSE "value", !.seen = @ \cup {st.bn}, !.next = LEi(d, 0, 4), !.kind = kind, !.q = 12, !.end = LEi(h, 8, 4) - 20, !.k = 0, !.d = d]
                  /\ ev' = PageEv(st.bn, h) \o <<Ln("Next block number", Dec(LE(d, 0, 4))), Ln("Unknown1", Hex(LE(d, 4, 8), 8))>>
                           \o (IF kind = 65 THEN <<Hexd("Page data", d)>> ELSE <<>>)
PageEnd == st.pc = "pageend" /\ st' = [st EXCEPT !.pc = "page", !.bn = st.next] /\ ev' = <<>>
Put(e) == [st.tab EXCEPT ![st.t] = Append(@, e)]
Label(a, n, b) == a \o ToString(n) \o b
EntryEv(i, e) == IF e.k = "type" THEN <<Ln("Table index", Dec(i)), Ln("Value type", Hex(Nat2(e.t), 2)), Ln("Property type", Hex(Nat2(e.p), 2)), Ln("Key name", e.s)>>
                 ELSE <<Ln("Table index", Dec(i)), Ln("Value name", e.s)>>
Nums(d, p, n) == [i \in 1..(n \div 4) |-> LE(d, p + 4 * i - 4, 4)]
(* one line for each index value; the label holds the value                  *)
ItemEv(ns) == [i \in 1..Len(ns) |-> Ln("Value: " \o StrOf(Dec(ns[i])), NameOf(ns[i]))]
ReadValue ==
  /\ st.pc = "value"
  /\ IF st.q >= st.end THEN st' = [st EXCEPT !.pc = "pageend"] /\ ev' = <<>>
     ELSE IF ~Fits(st.d, st.q, 4) THEN Fail
     ELSE LET i == LE(st.d, st.q, 4)
              r == SubSeq(st.d, st.q + 1, Len(st.d))
              off == IF st.kind = 17 THEN 6 ELSE 4
              s == CStr(r, off)
              size == VI(r, 4)
              n == Sat(size.v)
              pad == n % 4
              o == 4 + size.n + pad
              ns == Nums(r, o, n - pad)
          IN IF st.kind \in {17, 33}
             THEN IF ~s.ok THEN Fail
                  ELSE LET e == IF st.kind = 17 THEN Type(i, r, 4, s.v) ELSE Named(i, s.v) IN
                       /\ st' = [st EXCEPT !.q = @ + off + s.n, !.k = @ + 1, !.tab = Put(e)]
                       /\ ev' = <<Hexd(Label("Page value: ", st.k, " data"), Sub(r, 0, off + s.n))>> \o EntryEv(i, e)
             ELSE IF ~size.ok THEN Fail ELSE IF n = BIG \/ ~Fits(r, o, n - pad) THEN Fail
             ELSE /\ st' = [st EXCEPT !.q = @ + o + n - pad, !.k = @ + 1, !.tab = Put(Index(i, [j \in 1..Len(ns) |-> NameOf(ns[j])]))]
                  /\ ev' = <<Hexd(Label("Page value: ", st.k, " data"), Sub(r, 0, o + n - pad)), Ln("Table index", Dec(i)), Ln("Index size", DecI(n - pad)),
                             Ln("Index values", Joined([j \in 1..Len(ns) |-> Dec(ns[j])]))>> \o ItemEv(ns)

(* ---- streams maps ---- *)
ReadStreams ==
  /\ st.pc = "streams"
  /\ LET f == I.maps[st.t]
         size == LEi(f.h, 20, 4)
         n == LEi(f.h, 28, 4)
         o(i) == LEi(f.o, 4 * i - 4, 4)
         e(i) == IF i = n THEN size ELSE o(i + 1)
     IN IF ~Fits(f.h, 0, 56) \/ Sub(f.h, 0, 8) # <<0, 80, 97, 116, 97, 68, 0, 0>> THEN Fail
        ELSE IF n > Len(f.o) THEN Fail ELSE IF 4 * n > Len(f.o) \/ size > Len(f.d) THEN Fail
        ELSE IF \E i \in 1..n : e(i) < o(i) THEN Fail
        ELSE st' = [st EXCEPT !.pc = "stream", !.k = 0, !.rng = [i \in 1..n |-> Sub(f.d, o(i), e(i) - o(i))]] /\ ev' = <<>>
ReadStream ==
  /\ st.pc = "stream"
  /\ IF st.k = Len(st.rng) THEN st' = NextTable /\ ev' = <<>>
     ELSE LET d == st.rng[st.k + 1]
              i == Nat2(st.k)
              e0 == <<Hexd(Label("Stream value: ", st.k, " data"), d)>>
              a == VI(d, 0)
              b == VI(d, a.n)
              n == Sat(b.v)
              pad == n % 4
              o == a.n + b.n
              ns == Nums(d, o + pad, n - pad)
              off == IF st.t = 1 THEN a.n + 2 ELSE a.n
              s == CStr(d, off)
              skip == [st EXCEPT !.k = @ + 1]
          IN IF st.k = 0 THEN st' = skip /\ ev' = e0
             ELSE IF ~a.ok THEN Fail
             ELSE IF st.t \in {1, 2}
             THEN LET e1 == e0 \o <<Ln("Data size", Dec(a.v))>> IN
                  IF AddN(a.v, Nat2(a.n)) # Nat2(Len(d)) THEN st' = skip /\ ev' = e1
                  ELSE IF ~s.ok THEN Fail
                  ELSE LET e == IF st.t = 1 THEN Type(i, d, a.n, s.v) ELSE Named(i, s.v) IN
                       st' = [skip EXCEPT !.tab = Put(e)] /\ ev' = e1 \o EntryEv(i, e)
             ELSE IF ~b.ok THEN Fail ELSE IF n = BIG \/ ~Fits(d, o + pad, n - pad) THEN Fail
             ELSE /\ st' = [skip EXCEPT !.tab = Put(Index(i, [j \in 1..Len(ns) |-> NameOf(ns[j])]))]
                  /\ ev' = e0 \o <<Ln("Unknown1", Dec(a.v)), Ln("Table index", Dec(i)), Ln("Index size", DecI(n - pad)), Hexd("Padding", Sub(d, o, pad)),
                                   Ln("Index values", Joined([j \in 1..Len(ns) |-> Dec(ns[j])]))>> \o ItemEv(ns)

(* ---- record pages ---- *)
ReadRecordPage ==
  /\ st.pc = "recpage"
  /\ IF st.m > Len(st.map)
     THEN st' = [st EXCEPT !.pc = "next", !.todo = IF I.dbg THEN [i \in 1..Len(st.descs) |-> st.descs[i].id] ELSE <<>>] /\ ev' = <<>>
     ELSE LET bn == st.map[st.m] IN
          IF ~PageHere(bn) THEN Fail
          ELSE LET h == Rd(bn * 4096, 20)
                   kind == LEi(h, 12, 4)
                   d == PageData(bn, h)
                   e0 == PageEv(bn, h)
                   zl == I.zl[bn + 1]
               IN IF kind \notin {9, 4105, 16393, 20489} \/ ~Whole(bn, h) THEN FailEv(e0)
                  ELSE IF LEi(h, 16, 4) = 0 THEN /\ st' = [st EXCEPT !.pc = "records", !.bn = bn, !.d = Sub(d, 0, MinOf(Len(d), MaxOf(0, LEi(h, 8, 4) - 20))), !.q = 0]
                                                 /\ ev' = e0
                  ELSE IF kind \in {4105, 20489} /\ Len(d) >= 4 /\ SubSeq(d, 1, 4) \in {Lit("bv41"), Lit("bv4-")}
                  THEN st' = [st EXCEPT !.pc = "lz4", !.bn = bn, !.d = d, !.q = 0, !.k = 0, !.out = <<>>] /\ ev' = e0
                  ELSE IF Len(d) > 0 /\ d[1] = 120
                  THEN IF zl.ok THEN st' = [st EXCEPT !.pc = "records", !.bn = bn, !.d = zl.d, !.q = 0] /\ ev' = e0 ELSE FailEv(e0)
                  ELSE FailEv(e0 \o <<Hexd("Data", d)>>)
(* LZ4 blocks until the end marker; lz has the data of the compressed blocks *)
ReadLz4 ==
  /\ st.pc = "lz4"
  /\ IF st.q >= Len(st.d) THEN Fail
     ELSE LET mark == Sub(st.d, st.q, MinOf(4, Len(st.d) - st.q))
              e0 == <<Hexd("LZ4 block marker", mark)>>
              lz == I.lz[st.bn + 1]
              us == LEi(st.d, st.q + 4, 4)
              cs == LEi(st.d, st.q + 8, 4)
          IN IF mark = Lit("bv4$") THEN st' = [st EXCEPT !.pc = "records", !.d = st.out, !.q = 0] /\ ev' = e0
             ELSE IF ~Fits(st.d, st.q, 12) THEN FailEv(e0)
             ELSE LET e1 == e0 \o Fields(st.d, st.q, FALSE, <<Field("Signature", 0, 4, "stream"), Field("Uncompressed data size", 4, 4, "dec"), Field("compressed data size", 8, 4, "dec")>>)
                  IN IF mark = Lit("bv41")
                     THEN IF st.k >= Len(lz) THEN FailEv(e1)
                          ELSE IF ~lz[st.k + 1].ok THEN FailEv(e1)
                          ELSE st' = [st EXCEPT !.q = @ + 12 + cs, !.k = @ + 1, !.out = @ \o lz[st.k + 1].d] /\ ev' = e1
                     ELSE IF mark = Lit("bv4-")
                     THEN st' = [st EXCEPT !.q = @ + 8 + us, !.out = @ \o Sub(st.d, st.q + 8, MinOf(us, Len(st.d) - st.q - 8))] /\ ev' = e1
                     ELSE FailEv(e1)

(* a record: size, identifier, flags, item, parent and last update time      *)
NoRec == [ok |-> FALSE, size |-> 0, id |-> <<>>, flags |-> 0, item |-> <<>>, parent |-> <<>>, time |-> <<>>, n |-> 0]
Record(d, p) ==
  LET size == LEi(d, p, 4)
      r == Sub(d, p + 4, size)
      a == VI(r, 0)
      b == VI(r, a.n + 1)
      c == VI(r, a.n + 1 + b.n)
      e == VI(r, a.n + 1 + b.n + c.n)
  IN IF ~Fits(d, p, 4) THEN NoRec
     ELSE IF ~Fits(d, p + 4, size) THEN NoRec
     ELSE IF ~a.ok THEN NoRec ELSE IF a.n >= Len(r) \/ ~b.ok THEN NoRec ELSE IF ~c.ok THEN NoRec ELSE IF ~e.ok THEN NoRec
     ELSE [ok |-> TRUE, size |-> size, id |-> a.v, flags |-> r[a.n + 1], item |-> b.v, parent |-> c.v, time |-> e.v, n |-> a.n + 1 + b.n + c.n + e.n]
RECURSIVE Insert(_, _)
Insert(s, x) == IF s = <<>> THEN <<x>> ELSE IF s[1].id = x.id THEN <<x>> \o SubSeq(s, 2, Len(s))
                ELSE IF LtN(x.id, s[1].id) THEN <<x>> \o s ELSE <<s[1]>> \o Insert(SubSeq(s, 2, Len(s)), x)
Few(v) == v \in {<<>>, <<1>>}
ReadRecords ==
  /\ st.pc = "records"
  /\ IF st.q >= Len(st.d) THEN st' = [st EXCEPT !.pc = "recpage", !.m = @ + 1, !.pages = Append(@, [bn |-> st.bn, d |-> st.d])] /\ ev' = <<>>
     ELSE LET r == Record(st.d, st.q)
              e0 == <<Ln("Record data offset", Hex(Nat2(st.q + 20), 8))>>
          IN IF ~r.ok THEN FailEv(e0)
             ELSE /\ st' = [st EXCEPT !.q = @ + 4 + r.size, !.descs = Insert(@, [id |-> r.id, bn |-> st.bn, q |-> st.q])]
                  /\ ev' = e0 \o <<Ln("Record data size", DecI(r.size)), Hexd("Record data", Sub(st.d, st.q + 4, r.size)),
                                   Ln(IF Few(r.id) THEN "Identifier" ELSE "File system identifier", Dec(r.id)), Ln("Flags", Hex(Nat2(r.flags), 2)),
                                   Ln("Item identifier", Hex(r.item, 2)),
                                   Ln(IF Few(r.parent) THEN "Parent identifier" ELSE "Parent file system identifier", Dec(r.parent)),
                                   Ln("Last update time", PosixMicroText(r.time))>>

(* ---- the attributes of a record ---- *)
One(x) == <<x>>
Val(k, v) == [k |-> k, v |-> v]
NoVal == [ok |-> FALSE, n |-> 0, x |-> Val("none", <<>>), e |-> <<>>]
Got(n, x, e) == [ok |-> TRUE, n |-> n, x |-> x, e |-> e]
RECURSIVE Ints(_, _)
Ints(d, p) == IF p >= Len(d) THEN <<>> ELSE LET a == VI(d, p) IN IF ~a.ok THEN <<NoInt>> ELSE <<a>> \o Ints(d, p + a.n)
RECURSIVE Strs(_, _)
Strs(d, p) == IF p >= Len(d) THEN <<>> ELSE LET a == CStr(d, p) IN IF ~a.ok THEN <<NoStr>> ELSE <<a>> \o Strs(d, p + a.n)
(* the text before the marker of a localized string                          *)
RECURSIVE MarkAt(_, _)
MarkAt(s, i) == IF i >= Len(s) THEN 0 ELSE IF s[i] = 22 /\ s[i + 1] = 2 THEN i ELSE MarkAt(s, i + 1)
Local(s) == LET i == MarkAt(s, 1) IN IF i = 0 THEN s ELSE SubSeq(s, 1, i - 1)
Each(label, vs) == [i \in 1..Len(vs) |-> Ln(Label(label \o ": ", i - 1, ""), vs[i])]
BoolText(v) == IF v = <<>> THEN Lit("False") ELSE Lit("True")
(* a Cocoa date and time (in seconds since 2001) with microseconds; numbers  *)
(* of 7500000000 or more are shown as numbers                                *)
CocoaMicro(b) ==
  LET f == F64(b)
      k == IF f.e < 0 THEN -f.e ELSE 0
      int == F64Int(f)
      fr == IF f.e >= 0 THEN <<>> ELSE SubN(f.m, Norm(ShlN(int, k)))
      borrow == f.neg /\ fr # <<>>
      fr2 == IF borrow THEN SubN(ShlN(<<1>>, k), fr) ELSE fr
      micro == Sat(Norm(ShrN(MulN(fr2, <<64, 66, 15>>), k)))
      secs == IF borrow THEN AddN(int, <<1>>) ELSE int
      qr == DivMod(secs, 86400)
      d == IF f.neg THEN 11323 - Sat(qr[1]) - (IF qr[2] # 0 THEN 1 ELSE 0) ELSE 11323 + Sat(qr[1])
      t == IF f.neg /\ qr[2] # 0 THEN 86400 - qr[2] ELSE qr[2]
  IN IF f.m = <<>> THEN NotSet
     ELSE IF f.special \/ f.e > 40 \/ d < -719528 THEN F64Text(b)
     ELSE DateText(d) \o <<32>> \o TimeText(t) \o <<46>> \o ZeroPadI(micro, 6) \o UTC
Early(b) == LET f == F64(b) IN IF f.special THEN f.neg /\ ~f.nan ELSE f.neg \/ (f.e <= 40 /\ LtN(F64Int(f), <<0, 235, 8, 191, 1>>))
TimeLine(b, tail) == Ln((IF Early(b) THEN "Date and time" ELSE "Floating-point") \o tail, IF Early(b) THEN CocoaMicro(b) ELSE F64Text(b))
(* the value of an attribute of value type t and property type p in d        *)
Sized(d) == LET a == VI(d, 0) IN IF ~a.ok THEN [ok |-> FALSE, n |-> 0, s |-> 0, e |-> <<>>] ELSE [ok |-> TRUE, n |-> a.n, s |-> Sat(a.v), e |-> <<Ln("Data size", Dec(a.v))>>]
FloatVal(t, p, d) ==
  LET w == IF t = 9 THEN 4 ELSE 8
      multi == (p \div 2) % 2 = 1
      z == Sized(d)
      count == IF multi THEN z.s \div w ELSE 1
      o == IF multi THEN z.n ELSE 0
      vs == [i \in 1..count |-> Sub(d, o + w * (i - 1), w)]
      txt == [i \in 1..count |-> IF w = 4 THEN F32Text(vs[i]) ELSE F64Text(vs[i])]
      tail(i) == IF multi THEN Label(": ", i - 1, "") ELSE ""
      lines == [i \in 1..count |-> IF t = 12 THEN TimeLine(vs[i], tail(i)) ELSE Ln("Floating-point" \o tail(i), txt[i])]
  IN IF multi /\ ~z.ok THEN NoVal
     ELSE IF count > Len(d) THEN NoVal ELSE IF ~Fits(d, o, w * count) THEN NoVal
     ELSE Got(IF multi THEN z.n + z.s ELSE w, Val(IF multi THEN "floats" ELSE "float", txt), (IF multi THEN z.e ELSE <<>>) \o lines)
ByteVal(p, d) ==
  LET multi == (p \div 2) % 2 = 1
      z == Sized(d)
      r == Sub(d, z.n, z.s)
  IN IF ~multi THEN (IF d = <<>> THEN NoVal ELSE Got(1, Val("int", <<Norm(<<d[1]>>)>>), <<Ln("Byte", DecI(d[1]))>>))
     ELSE IF ~z.ok THEN NoVal ELSE IF ~Fits(d, z.n, z.s) THEN NoVal
     ELSE Got(z.n + z.s, Val("ints", [i \in 1..z.s |-> Norm(<<r[i]>>)]), z.e \o Each("Byte", [i \in 1..z.s |-> DecI(r[i])]))
IntVal(p, d) ==
  LET multi == (p \div 2) % 2 = 1
      a == VI(d, 0)
      z == Sized(d)
      is == Ints(Sub(d, z.n, z.s), 0)
  IN IF ~a.ok THEN NoVal
     ELSE IF ~multi THEN Got(a.n, Val("int", <<a.v>>), <<Ln("Integer", Dec(a.v))>>)
     ELSE IF ~Fits(d, z.n, z.s) THEN NoVal
     ELSE IF \E i \in 1..Len(is) : ~is[i].ok THEN NoVal
     ELSE Got(z.n + z.s, Val("ints", [i \in 1..Len(is) |-> is[i].v]), z.e \o Each("Integer", [i \in 1..Len(is) |-> Dec(is[i].v)]))
StringVal(p, d) ==
  LET z == Sized(d)
      r == Sub(d, z.n, MinOf(z.s, Len(d) - z.n))
      ss == Strs(r, 0)
      list == [i \in 1..Len(ss) |-> ss[i].v]
      first == IF list = <<>> THEN <<>> ELSE list[1]
      one == IF p % 4 = 3 THEN Local(first) ELSE first
  IN IF ~z.ok THEN NoVal ELSE IF Len(r) < z.s \/ \E i \in 1..Len(ss) : ~ss[i].ok THEN NoVal
     ELSE IF p % 4 = 2 THEN Got(z.n + z.s, Val("strs", list), z.e \o <<Hexd("Data", r)>> \o Each("String", list))
     ELSE Got(z.n + z.s, Val("str", <<one>>), z.e \o <<Hexd("Data", r), Ln("String", one)>>)
RefVal(p, d) ==
  LET a == VI(d, 0)
      ls == Lookup(st.tab[5], a.v)
      l == Lookup(st.tab[4], a.v)
      v == Lookup(st.tab[2], a.v)
      local == IF ls.l = <<>> THEN Lit("(null)") ELSE Local(ls.l[1])
      named == IF v.k = "value" THEN v.s ELSE Lit("(null)")
  IN IF ~a.ok THEN NoVal
     ELSE IF p % 4 = 3 THEN Got(a.n, Val("str", <<local>>), <<Ln("Localized strings table index", Dec(a.v)), Ln("Localized string", local)>>)
     ELSE IF p % 4 = 2 THEN Got(a.n, Val("strs", l.l), <<Ln("Values list table index", Dec(a.v)), Ln("Values list", ListText(l.l))>>)
     ELSE Got(a.n, Val("str", <<named>>), <<Ln("Values table index", Dec(a.v)), Ln("Value", named)>>)
DataVal(d) ==
  LET z == Sized(d) IN
  IF ~z.ok THEN NoVal ELSE IF ~Fits(d, z.n, z.s) THEN NoVal
  ELSE Got(z.n + z.s, Val("bytes", <<Sub(d, z.n, z.s)>>), z.e \o <<Hexd("Binary data", Sub(d, z.n, z.s))>>)
Value(y, d) ==
  LET a == VI(d, 0) IN
  CASE y.s = Lit("kMDStoreAccumulatedSizes") -> Got(Len(d), Val("bytes", <<d>>), <<Hexd("Data", d)>>)
    [] y.t = 0 -> IF a.ok THEN Got(a.n, Val("int", <<a.v>>), <<Ln("Integer", Dec(a.v)), Ln("Boolean", BoolText(a.v))>>) ELSE NoVal
    [] y.t \in {2, 6} -> IF a.ok THEN Got(a.n, Val("int", <<a.v>>), <<Ln("Integer", Hex(a.v, 8))>>) ELSE NoVal
    [] y.t = 7 -> IntVal(y.p, d)
    [] y.t = 8 -> ByteVal(y.p, d)
    [] y.t \in {9, 10, 12} -> FloatVal(y.t, y.p, d)
    [] y.t = 11 -> StringVal(y.p, d)
    [] y.t = 14 -> DataVal(d)
    [] y.t = 15 -> RefVal(y.p, d)
    [] OTHER -> NoVal

Desc(id) == LET w == {i \in 1..Len(st.descs) : st.descs[i].id = id} IN IF w = {} THEN 0 ELSE CHOOSE i \in w : TRUE
PageOf(bn) == LET w == {i \in 1..Len(st.pages) : st.pages[i].bn = bn} IN st.pages[CHOOSE i \in w : TRUE].d
(* with a report every record is read in the order of the identifiers, then  *)
(* the records that are asked for                                            *)
NextItem ==
  /\ st.pc = "next"
  /\ IF st.todo = <<>>
     THEN IF st.ask THEN st' = [st EXCEPT !.pc = "done"] /\ ev' = <<>>
          ELSE st' = [st EXCEPT !.ask = TRUE, !.todo = I.ask] /\ ev' = <<[k |-> "!count", v |-> Len(st.descs)]>>
     ELSE LET id == st.todo[1]
              i == Desc(id)
              rest == [st EXCEPT !.todo = SubSeq(@, 2, Len(@))]
          IN IF i = 0 THEN st' = rest /\ ev' = <<[k |-> "!none", v |-> id]>>
             ELSE LET w == st.descs[i]
                      d == PageOf(w.bn)
                      r == Record(d, w.q)
                  IN /\ st' = [rest EXCEPT !.pc = "attr", !.d = Sub(d, 0, w.q + 4 + r.size), !.p = w.q + 4 + r.n, !.k = 0, !.ty = <<>>, !.item = <<>>, !.head = [id |-> id, item |-> r.item, parent |-> r.parent, time |-> r.time]]
                     /\ ev' = <<Ln("text", Lit("Retrieving record: ") \o Dec(id) \o Lit(" in page: ") \o Hex(Nat2(w.bn * 4096), 8) \o Lit(" at offset: ") \o Hex(Nat2(w.q + 20), 4)),
                                Ln("Record data offset", Hex(Nat2(w.q + 20), 8)), Ln("Record data size", DecI(r.size))>>
SetAttr(item, a) == IF \E i \in 1..Len(item) : item[i].key = a.key THEN [i \in 1..Len(item) |-> IF item[i].key = a.key THEN a ELSE item[i]] ELSE Append(item, a)
ReadAttr ==
  /\ st.pc = "attr"
  /\ IF st.p >= Len(st.d) THEN st' = [st EXCEPT !.pc = "next"] /\ ev' = IF st.ask THEN <<[k |-> "!item", v |-> st.head]>> \o [i \in 1..Len(st.item) |-> [k |-> "!attribute", v |-> st.item[i]]] ELSE <<>>
     ELSE LET a == VI(st.d, st.p)
              ty == AddN(st.ty, a.v)
              y == Lookup(st.tab[1], ty)
              e0 == <<Hexd("Relative metadata attribute type index data", Sub(st.d, st.p, a.n)), Ln(Label("Relative metadata attribute: ", st.k, " type index"), Dec(a.v)),
                      Ln(Label("Metadata attribute: ", st.k, " type index"), Dec(ty))>>
              e1 == e0 \o <<Ln("Key name", y.s), Ln("Property type", Hex(Nat2(y.p), 2)), Ln("Value type", Hex(Nat2(y.t), 2))>>
              x == Value(y, SubSeq(st.d, st.p + a.n + 1, Len(st.d)))
          IN IF ~a.ok THEN Fail ELSE IF y.k # "type" THEN FailEv(e0)
             ELSE IF ~x.ok THEN FailEv(e1)
             ELSE /\ st' = [st EXCEPT !.p = @ + a.n + x.n, !.k = @ + 1, !.ty = ty, !.item = SetAttr(@, [key |-> y.s, t |-> y.t, p |-> y.p, x |-> x.x])]
                  /\ ev' = e1 \o x.e

Done == st.pc \in {"done", "fail"}
Outcomes == IF st.pc = "done" THEN {"ok"} ELSE {"ParseError"}
Next == sc' = sc /\ (ReadHeader \/ ReadMap \/ StartTable \/ ReadPage \/ PageEnd \/ ReadValue \/ ReadStreams \/ ReadStream
                     \/ ReadRecordPage \/ ReadLz4 \/ ReadRecords \/ NextItem \/ ReadAttr)
(* one record for each identifier, in their order *)
Distinct == \A i, j \in 1..Len(st.descs) : i < j => LtN(st.descs[i].id, st.descs[j].id)
(* no page of a table is read twice *)
NoLoop == st.pc = "value" => st.bn \in st.seen /\ Cardinality(st.seen) <= Len(I.blk)
=============================================================================
