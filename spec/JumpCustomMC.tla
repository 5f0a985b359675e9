----------------------------- MODULE JumpCustomMC -----------------------------
EXTENDS JumpCustom, Json
CONSTANTS Types, Shapes, MaxCategories
MCSrc(x) == x.src
MCLnks(x) == x.lnks
LNK == <<76, 0, 0, 0, 1, 20, 2, 0, 0, 0, 0, 0, 192, 0, 0, 0, 0, 0, 0, 70, 0, 0, 0, 0>> \o EncLE(32, 4) \o Zeros(24) \o EncLE(513, 4) \o Zeros(20) \o Zeros(4)
(* a category: its header, number of entries (declared), the entries and    *)
(* footer                                                                   *)
CatHead(t, n) == EncLE(t, 4) \o (CASE t = 0 -> <<2, 0, 97, 0, 98, 0>> \o n [] t = 2 -> n [] OTHER -> <<9, 0, 0, 0>>)
Item(c) == CASE c = "l" -> GUID \o LNK [] c = "x" -> [i \in 1..20 |-> i] [] c = "b" -> GUID \o Zeros(20) [] c = "f" -> FOOTER [] OTHER -> <<>>
(* a shape is a string of items *)
Cat(c) == CatHead(c[1], CASE c[2] = "one" -> EncLE(1, 4) [] c[2] = "none" -> EncLE(0, 4) [] OTHER -> <<255, 255, 255, 255>>)
          \o FlatSeq([i \in 1..Len(c[3]) |-> Item(SubSeq(c[3], i, i))])
Cats == Types \X {"one", "none", "max"} \X Shapes
Scen == [cs : UNION {[1..k -> Cats] : k \in 0..MaxCategories}, extra : {0, 1}, tail : {0, 5}, cut : {0, 2}]
MkSrc(s) == LET d == EncLE(2, 4) \o EncLE(Len(s.cs) + s.extra, 4) \o EncLE(1, 4) \o FlatSeq([i \in 1..Len(s.cs) |-> Cat(s.cs[i])]) \o Zeros(s.tail)
            IN SubSeq(d, 1, Len(d) - s.cut)
(* the LNK library needs 80 bytes of a LNK file *)
MkLnks(d) == LET at == {o \in 12..Len(d) - 96 : d[o + 1] = 1 /\ Sub(d, o, 16) = GUID /\ Sub(d, o + 16, 80) = LNK}
                 RECURSIVE ToSeq(_)
                 ToSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<[o |-> x + 16, ok |-> TRUE, n |-> 80]>> \o ToSeq(S \ {x})
             IN ToSeq(at)
MCInit == (\E s \in Scen : LET d == MkSrc(s) IN sc = [s |-> s, src |-> d, lnks |-> MkLnks(d)]) /\ InitSt
MCSpec == MCInit /\ [][Next]_vars /\ WF_vars(Next)
Terminates == <>Done
MCDump == Done => PrintT("SCEN " \o ToJson([src |-> F]))
=============================================================================
