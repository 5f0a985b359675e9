------------------------------- MODULE Info2MC -------------------------------
EXTENDS Info2, Json
CONSTANTS MaxEntries, Extra
MCSrc(x) == x.src
MCExtra == {-1, 0, 1, 280}
Entry(w, i, u) == <<67, 58, 92, 96 + i, 146, 0>> \o Zeros(254) \o EncLE(i, 4) \o EncLE(2, 4) \o <<0, 64, 110, 60, 149, 21, 213, i>> \o EncLE(4096 * i, 4)
               \o (IF w = 800 THEN <<67, 0, 58, 0, 96 + i, 0>> \o u \o Zeros(512) ELSE <<>>)
Scen == [n : 0..MaxEntries, w : {280, 800, 281, 0}, c : {0, 1}, x : Extra, u : {<<0, 0>>, <<174, 4>>, <<0, 220>>}]
MkSrc(s) == LET d == EncLE(5, 4) \o EncLE(s.c, 4) \o EncLE(s.c, 4) \o EncLE(s.w, 4) \o EncLE(1, 4) \o FlatSeq([i \in 1..s.n |-> Entry(s.w, i, s.u)])
            IN IF s.x >= 0 THEN d \o Zeros(s.x) ELSE SubSeq(d, 1, Len(d) + s.x)
MCInit == (\E s \in Scen : sc = [s |-> s, src |-> MkSrc(s)]) /\ InitSt
MCSpec == MCInit /\ [][Next]_vars /\ WF_vars(Next)
Terminates == <>Done
MCDump == Done => PrintT("SCEN " \o ToJson([src |-> F]))
=============================================================================
