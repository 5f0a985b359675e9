----------------------------- MODULE PrefetchMC ------------------------------
EXTENDS Prefetch, Json
CONSTANTS MaxLen, Alphabet
MCSrc(x) == x.src
MCInit == (\E n \in 0..MaxLen : \E s \in [1..n -> Alphabet] : sc = [src |-> s]) /\ InitSt
MCSpec == MCInit /\ [][Next]_vars /\ WF_vars(Next)
Terminates == <>Done
MCDump == Done => PrintT("SCEN " \o ToJson([src |-> F]))
=============================================================================
