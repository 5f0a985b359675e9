------------------------------- MODULE WmiMapMC -------------------------------
EXTENDS WmiMap, Json
CONSTANTS Counts, Seconds, Marks, KeyShapes, SubShapes, ValueShapes, Kinds
MCSrc(x) == x.src
U2(n) == EncLE(n, 2)
U4(n) == EncLE(n, 4)
FF == <<255, 255, 255, 255>>
(* mapping files *)
Entry(v2, n) == n \o (IF v2 THEN U4(1) \o U4(2) \o FF \o U4(0) \o U4(5) ELSE <<>>)
Tbl(v2, ns) == U4(Len(ns)) \o FlatSeq([i \in 1..Len(ns) |-> Entry(v2, ns[i])])
Sect(v2, seq, pages, mark, ns, us) ==
  <<205, 171, 0, 0>> \o U4(seq) \o (IF v2 THEN U4(mark[1]) \o U4(mark[2]) ELSE <<>>) \o U4(pages) \o Tbl(v2, ns) \o U4(Len(us)) \o FlatSeq(us) \o <<186, 220, 0, 0>>
Numbers(n, k) == [i \in 1..n |-> IF i = 3 THEN FF ELSE U4(k * i + 1)]
MapScen == [kind : {"map"}, v2 : BOOLEAN, n : Counts, u : {0, 2}, second : Seconds, mark : Marks]
MapData(s) ==
  LET mark == CASE s.mark = "same" -> <<3, 3>> [] s.mark = "two" -> <<4, 2>> [] OTHER -> <<4, 3>>
      one == Sect(s.v2, 6, s.n + (IF s.mark = "two" THEN 1 ELSE 5), mark, Numbers(s.n, 1), Numbers(s.u, 9))
      two == Sect(s.v2, 7, s.n, mark, Numbers(2, 4), <<>>)
  IN CASE s.second = "none" -> one [] s.second = "whole" -> one \o two [] s.second = "start" -> one \o SubSeq(two, 1, 8)
       [] s.second = "cut" -> one \o SubSeq(two, 1, Len(two) - 4) [] s.second = "other" -> one \o <<1>> \o Tail(two)
       [] s.second = "first" -> SubSeq(one, 1, Len(one) - 1) [] OTHER -> <<204>> \o Tail(one)
(* index pages: keys of the values at 0 and 1 *)
IndexScen == [kind : {"index"}, key : KeyShapes, sub : SubShapes, val : ValueShapes, type : Kinds, debug : BOOLEAN]
Keys(s) == CASE s.key = "no" -> <<>> [] s.key = "one" -> <<<<1, 0>>>> [] s.key = "empty" -> <<<<>>, <<0>>>> [] s.key = "missing" -> <<<<0>>, <<1, 2>>>> [] OTHER -> <<<<0>>, <<0, 1>>>>
(* the offsets of the keys, in 16-bit units *)
KeyOffsets(ks) == [i \in 1..Len(ks) |-> IF i = 1 THEN 0 ELSE Len(ks[1]) + 1]
Values(s) == CASE s.val = "none" -> <<>> [] s.val = "open" -> <<65, 0, 66>> [] s.val = "high" -> <<200, 0, 66, 0>> [] OTHER -> <<65, 0, 66, 67, 0>>
ValueOffsets(s) == CASE s.val = "none" -> <<>> [] s.val = "past" -> <<0, 5>> [] s.val = "inside" -> <<0, 3>> [] OTHER -> <<0, 2>>
SubsOf(s, n) == [i \in 1..(n + 1) |-> CASE s.sub = "zero" -> U4(0) [] s.sub = "ff" /\ i = 1 -> FF [] OTHER -> U4(i)]
PageOf(s) ==
  LET ks == Keys(s)
      n == Len(ks)
      os == KeyOffsets(ks)
      kd == FlatSeq([i \in 1..n |-> U2(Len(ks[i])) \o FlatSeq([j \in 1..Len(ks[i]) |-> U2(ks[i][j])])])
      cut == IF s.key = "cut" THEN SubSeq(kd, 1, Len(kd) - 2) ELSE kd
      vd == Values(s)
      vo == ValueOffsets(s)
      type == CASE s.type = "active" -> <<204, 172, 0, 0>> [] s.type = "admin" -> <<221, 173, 0, 0>> [] OTHER -> <<204, 172, 1, 0>>
  IN type \o U4(3) \o U4(0) \o U4(5) \o U4(n) \o FlatSeq([i \in 1..n |-> U4(0)]) \o FlatSeq(SubsOf(s, n)) \o FlatSeq([i \in 1..n |-> U2(os[i])])
     \o U2(Len(cut) \div 2) \o cut \o U2(Len(vo)) \o FlatSeq([i \in 1..Len(vo) |-> U2(vo[i])]) \o U2(Len(vd)) \o vd
Trim(d) == Norm(d)
MkSrc(s) == IF s.kind = "map" THEN [kind |-> "map", data |-> MapData(s), get |-> <<<<>>, <<1>>, <<2>>, <<3>>>>]
            ELSE [kind |-> "index", pages |-> <<Trim(PageOf(s)), <<221, 173>>>>, size |-> 2 * PAGE - (IF s.sub = "short" THEN 1 ELSE 0), get |-> <<<<>>, <<2>>, <<1>>>>, debug |-> s.debug]
MCInit == (\E s \in MapScen \cup IndexScen : sc = [s |-> s, src |-> MkSrc(s)]) /\ InitSt
MCSpec == MCInit /\ [][Next]_vars /\ WF_vars(Next)
Terminates == <>Done
Whole == sc.s.kind = "map" /\ st.pc = "done"
(* the version follows from the marks of the header *)
TwoTables == (Whole /\ sc.s.v2 /\ sc.s.mark = "next") => Len(st.got[1]) = 2 /\ Len(st.got[2]) = sc.s.n
OneTable == (Whole /\ ~sc.s.v2 /\ sc.s.mark = "next") => (Len(st.got[2]) = sc.s.n /\ Len(st.got[1]) = (IF sc.s.second = "whole" THEN 2 ELSE sc.s.n))
Rejected == (Whole /\ sc.s.mark = "next") => sc.s.second \notin {"first", "signature", "cut"} /\ (sc.s.v2 => sc.s.second = "whole")
NotRead == (sc.s.kind = "index" /\ sc.s.type = "active" /\ (sc.s.val \in {"open", "high"} \/ sc.s.key \in {"missing", "cut"})) => st.pc # "done"
MCDump == Done => PrintT("SCEN " \o ToJson([src |-> sc.src]))
=============================================================================
