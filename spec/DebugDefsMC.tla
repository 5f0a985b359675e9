---------------------------- MODULE DebugDefsMC ----------------------------
EXTENDS DebugDefs, Json
CONSTANTS MaxDocs
MCSrc(x) == x.src
At2(n, d, f) == [n |-> n, d |-> d, f |-> f]
N == {<<>>, Lit("size"), Lit("data")}
D == {<<>>, Lit("Size of it")}
F == Formats \cup {<<>>, Lit("custom:"), Lit("custom:one"), Lit("custom:two"), Lit("decimals"), Lit("hex"), Lit("custom"), Lit("customone"), Lit("xcustom:one"), Lit("Decimal")}
Good == At2(Lit("size"), Lit("The size"), Lit("decimal"))
Lists == {<<>>} \cup {<<At2(n, d, f)>> : n \in N, d \in D, f \in F}
         \cup {<<Good, At2(n, Lit("x"), f)>> : n \in N, f \in {Lit("decimal"), Lit("custom:one"), <<>>}}
Doc(e, x, m, as) == [empty |-> e, extra |-> x, map |-> m, attrs |-> as]
Docs == {Doc(FALSE, x, m, as) : x \in BOOLEAN, m \in {<<>>, Lit("header"), Lit("record")}, as \in Lists}
        \cup {Doc(TRUE, FALSE, <<>>, <<>>)}
Firsts == {Doc(FALSE, FALSE, Lit("header"), <<Good>>), Doc(FALSE, FALSE, Lit("header"), <<At2(Lit("a"), Lit("b"), Lit("uuid"))>>),
           Doc(FALSE, FALSE, Lit("record"), <<Good>>), Doc(FALSE, FALSE, <<>>, <<Good>>)}
Files == {<<>>} \cup {<<d>> : d \in Docs} \cup {<<a, d>> : a \in Firsts, d \in Docs}
         \cup (IF MaxDocs < 3 THEN {} ELSE {<<a, b, d>> : a \in Firsts, b \in Firsts, d \in Docs})
MCInit == /\ \E f \in Files, m \in {"read", "info"} : sc = [src |-> [docs |-> f, custom |-> <<Lit("one")>>, mode |-> m]]
          /\ InitSt
MCSpec == MCInit /\ [][Next]_vars /\ WF_vars(Next)
Terminates == <>Done
MCDump == (st.i = 1 /\ st.pc = "run") => PrintT("SCEN " \o ToJson(sc.src))
=============================================================================
