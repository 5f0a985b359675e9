---------------------------- MODULE RecycleBinMC ----------------------------
(* Every version, every sequence of up to MaxUnits UTF-16 units (including  *)
(* NUL and halves of surrogate pairs) and every counted size around it.     *)
EXTENDS RecycleBin, Json
CONSTANTS MaxUnits
MCSrc(x) == x.src
Units == {<<0, 0>>, <<97, 0>>, <<0, 216>>, <<1, 220>>}
Scen == UNION {[v : 0..3, n : {n}, us : [1..n -> Units], c : {0, n - 1, n, n + 1}, x : {0, 1}] : n \in 0..MaxUnits}
MkSrc(s) == EncLE(s.v, 8) \o EncLE(1234, 8) \o <<0, 64, 110, 60, 149, 21, 213, 1>>
            \o (IF s.v = 2 THEN EncLE(MaxOf(0, s.c), 4) ELSE <<>>) \o FlatSeq(s.us) \o Zeros(s.x)
MCInit == (\E s \in Scen : sc = [s |-> s, src |-> MkSrc(s)]) /\ InitSt
MCSpec == MCInit /\ [][Next]_vars /\ WF_vars(Next)
Terminates == <>Done
MCDump == Done => PrintT("SCEN " \o ToJson([src |-> F]))
=============================================================================
