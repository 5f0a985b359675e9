----------------------------- MODULE FseventsMC ------------------------------
EXTENDS Fsevents, Json
CONSTANTS MaxPages, MaxRecs, Slack
MCSrc(x) == x.src
Rec(v, i) == <<97, 47, 96 + i, 0>> \o EncLE(i, 8) \o EncLE(65536 + i, 4) \o (IF v = 2 THEN EncLE(900 + i, 8) ELSE <<>>)
Page(v, n, d) == LET body == FlatSeq([i \in 1..n |-> Rec(v, i)]) IN
                 <<48 + v, 83, 76, 68, 1, 2, 3, 4>> \o EncLE(MaxOf(0, 12 + Len(body) + d), 4) \o body
MCSlack == {-12, -1, 0, 1, 12}
Scen == UNION {[p : {p}, v : [1..p -> {1, 2, 3}], n : [1..p -> 0..MaxRecs], d : [1..p -> Slack]] : p \in 0..MaxPages}
MkSrc(s) == FlatSeq([i \in 1..s.p |-> Page(s.v[i], s.n[i], s.d[i])])
MCInit == (\E s \in Scen : sc = [s |-> s, src |-> MkSrc(s)]) /\ InitSt
MCSpec == MCInit /\ [][Next]_vars /\ WF_vars(Next)
Terminates == <>Done
MCDump == Done => PrintT("SCEN " \o ToJson([src |-> F]))
=============================================================================
