------------------------------- MODULE WmiIndex -------------------------------
(* The files that say where the objects of a WMI repository are: mapping     *)
(* files (mapped page number -> page number) and the pages of the index      *)
(* binary tree (keys that name object records).                              *)
EXTENDS WmiClass

(* a mapping file: a header, a table of page numbers, a table of which the   *)
(* purpose is not known and a footer, once or twice                          *)
HeaderOk(d, p, v2) == Fits(d, p, IF v2 THEN 20 ELSE 12) /\ Sub(d, p, 4) = <<205, 171, 0, 0>>
HeaderLines(d, p, v2) ==
  <<Ln("Signature", Hex(LE(d, p, 4), 8)), Ln("Sequence number", Dec(LE(d, p + 4, 4)))>>
  \o (IF v2 THEN <<Ln("Unknown1", Hex(LE(d, p + 8, 4), 8)), Ln("Unknown2", Hex(LE(d, p + 12, 4), 8)), Ln("Number of pages", Dec(LE(d, p + 16, 4)))>>
      ELSE <<Ln("Number of pages", Dec(LE(d, p + 8, 4)))>>)
MapPage(b) == IF b = <<255, 255, 255, 255>> THEN Lit("0xffffffff (unavailable)") ELSE Dec(b)
NoTable == [ok |-> FALSE, t |-> <<>>, p |-> 0, ev |-> <<>>]
Table(d, p, w) ==
  LET n == LEi(d, p, 4)
      Entry(i) == p + 4 + w * (i - 1)
  IN IF ~Fits(d, p, 4) THEN NoTable
     ELSE IF n > Len(d) THEN NoTable
     ELSE IF ~Fits(d, p + 4, w * n) THEN NoTable
     ELSE [ok |-> TRUE, t |-> [i \in 1..n |-> LE(d, Entry(i), 4)], p |-> p + 4 + w * n,
           ev |-> <<At("mapping table", p), Hexd("Mapping table", <<>>), Ln("  Number of entries", DecI(n))>>
                  \o FlatSeq([i \in 1..n |-> <<Hexd("  Entry: " \o ToString(i - 1), <<>>), Ln("    Page number", MapPage(LE(d, Entry(i), 4)))>>
                                             \o (IF w = 4 THEN <<>> ELSE [k \in 1..5 |-> Ln("    Unknown" \o ToString(k), Hex(LE(d, Entry(i) + 4 * k, 4), 8))])])]
Unknown(d, p) ==
  LET n == LEi(d, p, 4)
  IN IF ~Fits(d, p, 4) THEN NoTable
     ELSE IF n > Len(d) THEN NoTable
     ELSE IF ~Fits(d, p + 4, 4 * n) THEN NoTable
     ELSE [ok |-> TRUE, t |-> <<>>, p |-> p + 4 + 4 * n,
           ev |-> <<At("unknown table", p), Hexd("Unknown table", <<>>), Ln("  Number of entries", DecI(n))>>
                  \o [i \in 1..n |-> Ln("  Entry: " \o ToString(i - 1) \o " page number", MapPage(LE(d, p + 4 * i, 4)))]]
Section(d, p, v2) ==
  LET t == Table(d, p + (IF v2 THEN 20 ELSE 12), IF v2 THEN 24 ELSE 4)
      u == Unknown(d, t.p)
  IN IF ~HeaderOk(d, p, v2) THEN NoTable
     ELSE IF ~t.ok THEN NoTable
     ELSE IF ~u.ok THEN NoTable
     ELSE IF ~Fits(d, u.p, 4) \/ Sub(d, u.p, 4) # <<186, 220, 0, 0>> THEN NoTable
     ELSE [ok |-> TRUE, t |-> t.t, p |-> u.p + 4,
           ev |-> <<At("file header", p)>> \o HeaderLines(d, p, v2) \o t.ev \o u.ev \o <<At("file footer", u.p), Ln("Signature", Hex(LE(d, u.p, 4), 8))>>]
NoMap == [ok |-> FALSE]
Map(d) ==
  LET v2 == LE(d, 8, 4) = AddN(LE(d, 12, 4), <<1>>)
      s1 == Section(d, 0, v2)
      none == ~v2 /\ (s1.p >= Len(d) \/ ~HeaderOk(d, s1.p, v2))
      s2 == Section(d, s1.p, v2)
  IN IF ~HeaderOk(d, 0, TRUE) THEN NoMap
     ELSE IF ~s1.ok THEN NoMap
     ELSE IF ~none /\ ~s2.ok THEN NoMap
     ELSE [ok |-> TRUE, v |-> IF v2 THEN 2 ELSE 1, seq |-> LE(d, 4, 4), objects |-> s1.t, index |-> IF none THEN s1.t ELSE s2.t,
           ev |-> <<At("file header", 0)>> \o HeaderLines(d, 0, TRUE) \o s1.ev
                  \o (IF ~none THEN s2.ev ELSE IF s1.p >= Len(d) THEN <<>> ELSE <<At("file header", s1.p)>>)]
(* the page a mapped page number (of arbitrary size) stands for              *)
Resolve(t, m) == IF LtN(m, Nat2(Len(t))) THEN [ok |-> TRUE, n |-> t[Sat(m) + 1]] ELSE [ok |-> FALSE, n |-> <<>>]

-----------------------------------------------------------------------------
PAGE == 8192
Blank == Zeros(PAGE)
(* the pages of a file of a size are given up to their last byte that is not 0 *)
PageCount(f) == (f.size + PAGE - 1) \div PAGE
HasPage(f, n) == LtN(n, Nat2(PageCount(f)))
PageData(f, i) == SubSeq(f.pages[i] \o Blank, 1, MinOf(PAGE, f.size - PAGE * (i - 1)))

TreePage(b) == IF b \in {<<>>, <<255, 255, 255, 255>>} THEN Hex(b, 8) \o Lit(" (unavailable)") ELSE Dec(b)
PageType(b) == Hex(b, 4) \o Lit(" (" \o (CASE b = <<204, 172>> -> "Is active" [] b = <<221, 173>> -> "Is administrative" [] b = <<221, 186>> -> "Is deleted" [] OTHER -> "Unknown") \o ")")
Active == <<204, 172>>
Admin == <<221, 173>>
RECURSIVE KeyText(_, _)
KeyText(ss, vs) == IF ss = <<>> THEN <<>> ELSE <<92>> \o vs[ss[1] + 1] \o KeyText(Tail(ss), vs)
NoPage == [ok |-> FALSE]
(* the page with number n of an index binary tree                            *)
IndexPage(d, n) ==
  LET h == [type |-> LE(d, 0, 4), root |-> LE(d, 12, 4)]
      header == <<Note(Lit("Reading page: " \o ToString(n) \o " at offset: ") \o OffsetText(MulN(Nat2(n), Nat2(PAGE))) \o <<46>>), Hexd("Page header data", Sub(d, 0, 16)),
                  Ln("Page type", PageType(h.type)), Ln("Mapped page number", Dec(LE(d, 4, 4))), Ln("Unknown1", Hex(LE(d, 8, 4), 8)), Ln("Root page number", Dec(h.root))>>
      k == LEi(d, 16, 4)
      p1 == 20 + 4 * k                            \* sub pages
      p2 == p1 + 4 * (k + 1)                      \* offsets of the keys
      p3 == p2 + 2 * k                            \* size of the keys
      ks == LEi(d, p3, 2)
      p4 == p3 + 2 + 2 * ks                       \* number of values
      vn == LEi(d, p4, 2)
      p5 == p4 + 2 + 2 * vn                       \* size of the values
      vz == LEi(d, p5, 2)
      p6 == p5 + 2 + vz
      keys == Sub(d, p3 + 2, 2 * ks)
      values == Sub(d, p5 + 2, vz)
      KeyAt(i) == 2 * LEi(d, p2 + 2 * (i - 1), 2)
      Segments(i) == LEi(keys, KeyAt(i), 2)
      KeyOk(i) == Fits(keys, KeyAt(i), 2) /\ Fits(keys, KeyAt(i) + 2, 2 * Segments(i))
      Key(i) == [j \in 1..Segments(i) |-> LEi(keys, KeyAt(i) + 2 * j, 2)]
      ValueAt(i) == LEi(d, p4 + 2 * i, 2)
      ValueOk(i) == ValueAt(i) < vz /\ LET s == Sub(values, ValueAt(i), vz - ValueAt(i)) IN IndexOfVal(s, 0) # 0 /\ IsAscii(UpToNul(s))
      Value(i) == UpToNul(Sub(values, ValueAt(i), vz - ValueAt(i)))
      vs == [i \in 1..vn |-> Value(i)]
      subs == [i \in 1..(k + 1) |-> LE(d, p1 + 4 * (i - 1), 4)]
      body == <<Hexd("Page body data", Sub(d, 16, p6 - 16)), Ln("Number of keys", DecI(k))>>
              \o [i \in 1..k |-> Ln("Unknown2: " \o ToString(i - 1), Dec(LE(d, 16 + 4 * i, 4)))]
              \o [i \in 1..(k + 1) |-> Ln("Sub page: " \o ToString(i - 1) \o " mapped page number", TreePage(subs[i]))]
              \o [i \in 1..k |-> Ln("Key: " \o ToString(i - 1) \o " offset", OffI(LEi(d, p2 + 2 * (i - 1), 2)))]
              \o <<Ln("Key data size", DecI(ks) \o Lit(" (") \o DecI(2 * ks) \o Lit(" bytes)")), Hexd("Key data", keys), Ln("Number of values", DecI(vn))>>
              \o [i \in 1..vn |-> Ln("Value: " \o ToString(i - 1) \o " offset", OffI(ValueAt(i)))]
              \o <<Ln("Value data size", DecI(vz) \o Lit(" bytes")), Hexd("Value data", values)>>
      Trailing(p) == IF p < PAGE THEN <<Hexd("Trailing data", Sub(d, p, PAGE - p))>> ELSE <<>>
      KeyLines(i) == LET label == "Page key: " \o ToString(i - 1)
                     IN <<Ln(label \o " offset", OffI(KeyAt(i))), Hexd(label \o " data:", Sub(keys, KeyAt(i), 2 + 2 * Segments(i))),
                          Ln(label \o " number of segments", DecI(Segments(i))), Ln(label \o " segments", Joined([j \in 1..Segments(i) |-> DecI(Key(i)[j])]))>>
  IN IF Len(d) < PAGE THEN NoPage
     ELSE IF h.type # Active THEN [ok |-> TRUE, type |-> h.type, root |-> h.root, n |-> <<-1>>, subs |-> <<>>, keys |-> <<>>, ev |-> header \o Trailing(16)]
     ELSE IF k > PAGE THEN NoPage
     ELSE IF ~Fits(d, p3, 2) THEN NoPage
     ELSE IF ~Fits(d, p4, 2) THEN NoPage
     ELSE IF ~Fits(d, p5, 2) THEN NoPage
     ELSE IF ~Fits(d, p6, 0) THEN NoPage
     ELSE IF \E i \in 1..k : ~KeyOk(i) THEN NoPage
     ELSE IF \E i \in 1..vn : ~ValueOk(i) THEN NoPage
     ELSE IF \E i \in 1..k : \E j \in 1..Segments(i) : Key(i)[j] >= vn THEN NoPage
     ELSE [ok |-> TRUE, type |-> h.type, root |-> h.root, n |-> Nat2(k), subs |-> SelectSeq(subs, LAMBDA b : b \notin {<<>>, <<255, 255, 255, 255>>}),
           keys |-> [i \in 1..k |-> IF Segments(i) = 0 THEN <<92>> ELSE KeyText(Key(i), vs)],
           ev |-> header \o body \o Trailing(p6) \o FlatSeq([i \in 1..k |-> KeyLines(i)]) \o [i \in 1..vn |-> Ln("Page value: " \o ToString(i - 1) \o " data", vs[i])]]
=============================================================================
