------------------------------ MODULE SpotlightMC ------------------------------
EXTENDS Spotlight, Json
CONSTANTS Reports, Types, Props, Kinds, Shapes
MCSrc(x) == x.src
U4(n) == EncLE(n, 4)
MapAt == 580
Header(root, mo, ms) == Lit("8tsd") \o Zeros(32) \o U4(mo) \o U4(ms) \o U4(4096) \o FlatSeq([i \in 1..5 |-> U4(root[i])]) \o Zeros(256) \o Lit("/p") \o Zeros(254)
MapPage(size, bns) == Lit("2mbd") \o U4(size) \o U4(Len(bns)) \o Zeros(8) \o FlatSeq([i \in 1..Len(bns) |-> Zeros(8) \o U4(bns[i]) \o U4(16384)])
Page(kind, used, un, d, pad) == Lit("2pbd") \o U4(20 + Len(d) + pad) \o U4(20 + used) \o U4(kind) \o U4(un) \o d \o Zeros(pad)
Chain(next, d) == U4(next) \o Zeros(8) \o d
(* the value data by value type, property type and kind of data              *)
Wide(t) == CASE t = 9 -> <<0, 0, 192, 63>> [] OTHER -> <<0, 0, 0, 0, 101, 205, 157, 65>>
Multi(p) == (p \div 2) % 2 = 1
VData(t, p, kind) ==
  CASE kind = "none" -> <<>>
    [] kind = "big" -> <<136, 1>>
    [] t \in {9, 10, 12} /\ ~Multi(p) -> Wide(t)
    [] t \in {9, 10, 12} -> IF kind = "odd" THEN <<Len(Wide(t)) + 1>> \o Wide(t) \o <<0>> ELSE <<2 * Len(Wide(t))>> \o Wide(t) \o Wide(t)
    [] t = 7 /\ Multi(p) -> IF kind = "odd" THEN <<3, 5, 192, 1>> ELSE <<4, 5, 129, 2, 0>>
    [] t = 8 /\ Multi(p) -> <<2, 0, 255>>
    [] t = 11 -> IF kind = "odd" THEN <<3, 97, 0, 98>> ELSE <<6, 97, 22, 2, 98, 0, 0>>
    [] t = 14 -> <<2, 1, 2>>
    [] t = 15 -> IF kind = "odd" THEN <<9>> ELSE <<1>>
    [] OTHER -> IF kind = "odd" THEN <<248, 9, 0, 0, 0, 1>> ELSE <<129, 44>>
Rec(id, d) == LET r == <<id, 2, 3, 1, 195, 13, 64>> \o d IN U4(Len(r)) \o r
TypesData(s) == U4(1) \o <<s.t, s.p>> \o (IF s.shape = "sizes" THEN Lit("kMDStoreAccumulatedSizes") ELSE Lit("k1")) \o <<0>> \o U4(2) \o <<0, 0>> \o Lit("k2") \o <<0>>
ValuesData == U4(1) \o Lit("v1") \o <<22, 2, 120, 0>> \o U4(2) \o Lit("v2") \o <<0>>
IndexData == U4(1) \o <<9, 0>> \o U4(1) \o U4(7)
(* streams: the same tables                                                  *)
SMap(vs) == LET d == FlatSeq(vs)
                RECURSIVE At0(_)
                At0(i) == IF i = 1 THEN 0 ELSE At0(i - 1) + Len(vs[i - 1])
            IN [h |-> <<0, 80, 97, 116, 97, 68, 0, 0>> \o Zeros(12) \o U4(Len(d)) \o U4(0) \o U4(Len(vs)) \o Zeros(24), o |-> FlatSeq([i \in 1..Len(vs) |-> U4(At0(i))]), d |-> d]
SMaps(s) == LET pick == IF s.shape = "skip" THEN 1 ELSE 0 IN
            <<SMap(<<<<>>, <<5 + pick, s.t, s.p>> \o Lit("k1") \o <<0>>, <<5, 0, 0>> \o Lit("k2") \o <<0>>>>), SMap(<<<<0>>, <<3>> \o Lit("v1") \o <<0>>>>), SMap(<<<<>>>>), SMap(<<<<>>, <<0, 9, 0>> \o U4(1) \o U4(7)>>), SMap(<<<<>>, <<3, 4>> \o U4(1)>>)>>
Scen == [t : Types, p : Props, kind : Kinds, shape : Shapes, dbg : Reports]
MkSrc(s) ==
  LET streams == s.shape \in {"streams", "skip"}
      root == IF streams THEN <<0, 0, 0, 0, 0>> ELSE <<1, 2, 3, 4, 5>>
      attr == <<1>> \o VData(s.t, s.p, s.kind) \o (IF s.shape = "sizes" THEN <<>> ELSE IF s.shape = "unknown" THEN <<7, 1>> ELSE <<1, 1>>)
      recs == Rec(2, attr) \o (CASE s.shape = "again" -> Rec(2, <<>>) [] s.shape = "two" -> Rec(1, <<2, 0>>) [] OTHER -> <<>>)
      cut == SubSeq(recs, 1, Len(recs) - (IF s.shape = "cut" THEN 1 ELSE 0))
      lz == Lit("bv4-") \o U4(3) \o SubSeq(recs, 1, 3) \o Lit("bv4-") \o U4(Len(recs) - 3) \o SubSeq(recs, 4, Len(recs)) \o Lit("bv4$")
      page == IF s.shape = "lz4" THEN Page(20489, 20, 100, lz, 0) ELSE Page(9, Len(cut), 0, cut, IF s.shape = "unused" THEN 9 ELSE 0)
      next == CASE s.shape = "loop" -> 1 [] s.shape = "chain" -> 7 [] OTHER -> 0
      blk == <<Header(root, MapAt, IF s.shape = "nomap" THEN 0 ELSE 40) \o MapPage(IF s.shape = "map0" THEN 0 ELSE 40, IF s.shape = "empty" THEN <<>> ELSE <<6>>),
               Page(17, 12 + Len(TypesData(s)), 0, Chain(next, TypesData(s)), 0), Page(33, 12 + Len(ValuesData), 0, Chain(0, ValuesData), 3),
               Page(65, 12, 0, Chain(0, <<1>>), 0), Page(129, 12 + Len(IndexData), 0, Chain(0, IndexData), 0), Page(129, 12 + Len(IndexData), 0, Chain(0, IndexData), 0),
               page, Page(17, 21, 0, Chain(0, U4(9) \o <<0, 0>> \o Lit("k2") \o <<0>>), 0)>>
      size == IF s.shape = "chain" THEN 7 * 4096 + Len(blk[8]) ELSE 6 * 4096 + Len(blk[7])
  IN [size |-> size, blk |-> IF s.shape = "chain" THEN blk ELSE SubSeq(blk, 1, 7), maps |-> SMaps(s), dbg |-> s.dbg, ask |-> <<<<2>>, <<1>>, <<7>>>>,
      zl |-> [i \in 1..8 |-> [ok |-> FALSE, d |-> <<>>]], lz |-> [i \in 1..8 |-> <<>>]]
MCInit == (\E s \in Scen : sc = [s |-> s, src |-> MkSrc(s)]) /\ InitSt
MCSpec == MCInit /\ [][Next]_vars /\ WF_vars(Next)
Terminates == <>Done
(* whether a report is written makes no difference to what is read           *)
Count == st.pc = "done" => Len(st.descs) = (CASE sc.s.shape = "two" -> 2 [] sc.s.shape \in {"empty", "nomap"} -> 0 [] OTHER -> 1)
NotRead == sc.s.shape \in {"loop", "map0", "cut"} => st.pc # "done"
MCDump == Done => PrintT("SCEN " \o ToJson([src |-> [size |-> I.size, blk |-> I.blk, maps |-> I.maps]]))
=============================================================================
