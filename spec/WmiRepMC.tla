------------------------------- MODULE WmiRepMC -------------------------------
EXTENDS WmiRep, Json
CONSTANTS Depths, Belows, Lists, Gaps, Subs, Heads, Debugs
MCSrc(x) == x.src
U4(n) == EncLE(n, 4)
F == Zeros(12)
Wide(s) == FlatSeq([i \in 1..Len(s) |-> <<s[i], 0>>])
(* a class with a name; its instances have a value for it                    *)
ClassBlock ==
  LET cn == <<0>> \o Lit("N") \o <<0>>
      pn == <<0>> \o Lit("Name") \o <<0>>
      tn == <<0>> \o Lit("string") \o <<0>>
      q == <<10, 0, 0, 128, 1, 8, 0, 0, 0>> \o U4(Len(cn) + Len(pn))
      def == U4(8) \o <<0, 0>> \o U4(0) \o U4(0) \o U4(4 + Len(q)) \o q
      d == cn \o pn \o tn \o def
  IN <<0>> \o U4(0) \o U4(0) \o U4(4) \o U4(4) \o U4(1) \o U4(Len(cn)) \o U4(Len(cn) + Len(pn) + Len(tn)) \o SubSeq(U4(Len(d)), 1, 3) \o <<128>> \o d
InstanceBlock(name, set) == U4(0) \o <<0, 0>> \o U4(IF set THEN 3 ELSE 0) \o U4(4) \o <<1>> \o U4(0) \o <<0, 78, 0>> \o <<0>> \o name \o <<0>>
Sized(b) == U4(4 + Len(b)) \o b
Aligned(b) == b \o Zeros(Pad(Len(b), 4))
(* the nodes; a node is a sequence of numbers, of references (to the node of *)
(* a number) and of data                                                     *)
To(i) == [r |-> i, b |-> <<>>]
B(b) == [r |-> 0, b |-> b]
N(i) == B(U4(i))
Scen == [depth : Depths, below : Belows, list : Lists, gap : Gaps, sub : Subs, head : Heads, debug : Debugs]
(* 1 class, 2 its branch, 3 its definition, 4 root, 5 its instance, 6 values, *)
(* 7 tree, 8 value, 9 branch, 10 leaf, 11 below, 12 its instance, 13 values,  *)
(* 14 list, 15 and 16 elements, 17 name, 18 tree of classes                   *)
Cells(s) == <<
  <<N(0), IF s.gap = "branch" THEN N(0) ELSE To(2), N(0), N(IF s.sub = "other" THEN 8 ELSE 9), IF s.list = "none" THEN N(40) ELSE To(14),
    IF s.sub = "none" THEN N(0) ELSE To(18), N(0), IF s.sub = "none" THEN N(0) ELSE To(18), B(F)>>,
  <<N(0), N(0), N(1), IF s.gap = "definition" THEN N(40) ELSE To(3), N(0), B(F)>>,
  <<B(Aligned(Sized(ClassBlock) \o Sized(<<>>)) \o F)>>,
  <<IF s.below = "none" THEN B(<<255, 255, 255, 255>>) ELSE To(7), To(17), IF s.gap = "instance" THEN N(0) ELSE To(5), N(0), IF s.list = "none" THEN N(0) ELSE To(14), N(0), N(0), B(F)>>,
  <<N(0), IF s.gap = "class" THEN N(40) ELSE To(1), N(IF s.gap = "kind" THEN 1 ELSE 2), IF s.gap = "values" THEN N(0) ELSE To(6), N(0), B(F)>>,
  <<B(Sized(InstanceBlock(Lit("R"), s.gap # "name")) \o F)>>,
  <<N(s.depth), N(1), IF s.depth = 2 THEN To(9) ELSE To(8), B(F)>>,
  <<N(0), IF s.below = "loop" THEN To(4) ELSE To(11), B(F)>>,
  <<N(2), N(10), N(5), To(10), B(F)>>,
  <<N(0), To(8), N(40)>> \o [i \in 1..6 |-> N(0)] \o <<IF s.below = "twice" THEN To(8) ELSE N(0), B(F)>>,
  <<IF s.below = "deep" THEN To(7) ELSE N(0), N(0), To(12), N(0), N(0), N(1), N(100), B(F)>>,
  <<N(0), To(1), N(2), To(13), N(0), B(F)>>,
  <<B(Sized(InstanceBlock(Lit("a"), TRUE)) \o (IF s.gap = "footer" THEN Tail(F) ELSE F))>>,
  <<To(15), To(15), To(16), N(31), N(2), B(F)>>,
  <<N(0), To(17), To(12), N(0), N(0), N(0), To(16), B(F)>>,
  <<N(0), N(40), To(5), N(0), N(0), To(15), IF s.list = "loop" THEN To(15) ELSE N(40), B(F)>>,
  <<B(Aligned(Wide(Lit("n")) \o <<0, 0>>) \o F)>>,
  <<N(IF s.sub = "loop" THEN 1 ELSE 0), N(0), IF s.sub = "loop" THEN To(1) ELSE N(0), B(F)>> >>
SizeOf(c) == IF c = <<>> THEN 0 ELSE LET RECURSIVE Sum(_) Sum(i) == IF i = 0 THEN 0 ELSE Sum(i - 1) + (IF c[i].r = 0 THEN Len(c[i].b) ELSE 4) IN Sum(Len(c))
(* a bin header is before the cell h                                         *)
MkFile(s) ==
  LET cells == Cells(s)
      h == CASE s.head = "middle" -> 6 [] s.head = "first" -> 1 [] OTHER -> 0
      RECURSIVE PosOf(_)
      PosOf(i) == IF i = 1 THEN 40 + (IF h = 1 THEN 4 ELSE 0) ELSE PosOf(i - 1) + 4 + SizeOf(cells[i - 1]) + (IF i = h THEN 4 ELSE 0)
      at == [i \in 1..Len(cells) |-> PosOf(i)]
      bytes == [i \in 1..Len(cells) |-> (IF i = h THEN U4(0) ELSE <<>>) \o SubSeq(U4(4 + SizeOf(cells[i])), 1, 3) \o <<IF s.head = "flags" THEN 136 ELSE 0>>
                  \o FlatSeq([j \in 1..Len(cells[i]) |-> IF cells[i][j].r = 0 THEN cells[i][j].b ELSE U4(at[cells[i][j].r] + 4)])]
      number(i) == IF s.head = "absent" THEN 99 ELSE i - 1
      bin == IF h = 0 THEN 0 ELSE at[h] - 4
  IN U4(0) \o U4(number(4)) \o Zeros(28) \o U4(bin) \o FlatSeq(bytes) \o (CASE s.head = "end" -> U4(0) \o <<1, 2>> [] s.head = "flagged" -> <<0, 0, 0, 128>> [] s.head = "rest" -> <<1>> [] OTHER -> <<>>)
Calls(list) == [i \in 1..Len(list) |-> [op |-> list[i], f |-> 1]]
MkSrc(s) == [files |-> <<MkFile(s)>>, debug |-> s.debug, ops |-> Calls(<<"open", "namespaces", "instances", "classes", "close">>)]
VARIABLE seen
MCInit == (\E s \in Scen : sc = [s |-> s, src |-> MkSrc(s)]) /\ InitSt /\ seen = <<>>
MCNext == Next /\ seen' = seen \o ev'
MCSpec == MCInit /\ [][MCNext]_<<vars, seen>> /\ WF_<<vars, seen>>(MCNext)
Terminates == <>Done
S == sc.s
Result(op) == LET k == CHOOSE i \in 1..Len(seen) : seen[i].k = "!end" /\ seen[i].v.op = op IN seen[k].v.res
Has(op) == \E i \in 1..Len(seen) : seen[i].k = "!end" /\ seen[i].v.op = op
EndAt(op) == CHOOSE i \in 1..Len(seen) : seen[i].k = "!end" /\ seen[i].v.op = op
Items(op, before) == SelectSeq(SubSeq(seen, EndAt(before) + 1, EndAt(op) - 1), LAMBDA e : e.k = "!instance")
(* a loop is found, wherever the nodes of it are                             *)
Whole == S.gap = "no" /\ S.depth # 3 /\ S.head # "absent" /\ S.head # "rest"
LoopFound == (Done /\ Whole /\ S.below \in {"loop", "deep"} /\ S.depth # 0) => Result("instances") = "ParseError" /\ Result("namespaces") = "ParseError"
ListLoopFound == (Done /\ Whole /\ S.list = "loop") => Result("classes") = "ParseError"
ClassLoopFound == (Done /\ Whole /\ S.sub = "loop") => Result("classes") = "ParseError"
(* the namespaces are the instances (of a file in which every instance is a  *)
(* namespace), each with a name                                              *)
SameAsInstances == (Done /\ Whole /\ S.below \in {"none", "one", "twice"} /\ ~S.debug) =>
  /\ Result("namespaces") = "ok" /\ Result("instances") = "ok"
  /\ LET n == Items("namespaces", "open")
         i == Items("instances", "namespaces")
     IN Len(n) = Len(i) /\ Len(n) = (IF S.below = "none" \/ S.depth = 0 THEN 1 ELSE IF S.below = "twice" /\ S.depth = 2 THEN 3 ELSE 2)
        /\ \A k \in 1..Len(n) : [n[k].v EXCEPT !.ns = <<>>] = i[k].v /\ n[k].v.ns = (IF k = 1 THEN Lit("R") ELSE Lit("R\\a"))
(* without the cells there is nothing; an unfinished end is an error only if *)
(* the cells before it do not have what is needed                            *)
Nothing == (Done /\ S.head = "absent") => \A op \in {"namespaces", "instances"} : Has(op) => Result(op) = "ok"
MCDump == Done => PrintT("SCEN " \o ToJson([src |-> sc.src]))
=============================================================================
