----------------------------- MODULE FsHelperMC -----------------------------
EXTENDS FsHelper, Json
CONSTANTS MaxSegs
MCSrc(x) == x.src
A == <<97>>
B == <<98>>
C == <<99, 46, 100>>
E(path, dir, data) == [path |-> path, dir |-> dir, data |-> data]
Tree == <<E(<<A>>, TRUE, <<>>), E(<<A, A>>, FALSE, <<1, 2, 3>>), E(<<A, B>>, TRUE, <<>>), E(<<A, B, C>>, FALSE, <<4>>), E(<<B>>, FALSE, <<>>)>>
Root == <<<<114>>>>   \* a scratch root, "r" in the model
Pieces == {<<>>, DOT, UP, A, B, C}
RECURSIVE Glue(_)
Glue(ss) == IF Len(ss) = 0 THEN <<>> ELSE IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o <<SEP>> \o Glue(Tail(ss))
Shapes == UNION {[1..n -> Pieces] : n \in 1..MaxSegs}
(* a path that leaves the scratch root is not asked for *)
RECURSIVE Stays(_, _)
Stays(ss, d) == IF Len(ss) = 0 THEN d >= 0
                ELSE LET e == IF ss[1] = UP THEN d - 1 ELSE IF ss[1] \in {<<>>, DOT} THEN d ELSE d + 1 IN e >= 0 /\ Stays(Tail(ss), e)
Op(o, p, segs) == [op |-> o, p |-> p, segs |-> segs]
AllOps(p) == <<Op("base", p, <<>>), Op("dir", p, <<>>), Op("split", p, <<>>), Op("exists", p, <<>>), Op("list", p, <<>>),
               Op("open", p, <<>>), Op("again", p, <<>>), Op("sibling", p, <<B>>)>>
Sizes(p, x) == IF Walk(x, Node(Root)).kind = "dir" THEN <<>> ELSE <<Op("size", p, <<>>)>>
(* scenarios name absolute paths relative to the scratch root: "abs" gives  *)
(* the path below it                                                        *)
MCInit == /\ \E x \in Shapes, w \in {"abs", "root", "sub"} :
               LET cwd == IF w = "sub" THEN Root \o <<A>> ELSE Root
                   p == IF w = "abs" THEN Join(Root) \o <<SEP>> \o Glue(x) ELSE Glue(x)
               IN /\ Stays(x, IF w = "sub" THEN 1 ELSE 0)
                  /\ (w # "abs" => ~IsAbs(p))
                  /\ sc = [w |-> w, x |-> x,
                           src |-> [helper |-> "native", root |-> Root, cwd |-> cwd, tree |-> Tree,
                                    ops |-> AllOps(p) \o <<Op("join", <<>>, Root \o x)>>]]
          /\ InitSt
MCSpec == MCInit /\ [][Next]_vars /\ WF_vars(Next)
Terminates == <>Done
MCDump == (st.i = 1 /\ st.pc = "run") => PrintT("SCEN " \o ToJson([w |-> sc.w, x |-> sc.x, tree |-> Tree]))
=============================================================================
