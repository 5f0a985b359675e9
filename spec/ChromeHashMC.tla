---------------------------- MODULE ChromeHashMC -----------------------------
EXTENDS ChromeHash, Json
CONSTANTS Values, Longest
MCSrc(x) == x.src
MCInit == (\E n \in 0..Longest : \E s \in [1..n -> Values] : sc = [src |-> s]) /\ InitSt
MCSpec == MCInit /\ [][Next]_vars /\ WF_vars(Next)
Terminates == <>Done
MCDump == Done => PrintT("SCEN " \o ToJson([src |-> F]))
=============================================================================
