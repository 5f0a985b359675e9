------------------------------ MODULE JumpAutoMC ------------------------------
EXTENDS JumpAuto, Json
CONSTANTS Versions, Paths, MaxEntries
MCSrc(x) == x.src
MCOpened(x) == x.s.opened
PathOf(p) == CASE p = "none" -> <<0, 0>> [] p = "a" -> <<1, 0, 97, 0>> [] p = "nul" -> <<3, 0, 97, 0, 0, 0, 0, 216>> [] p = "half" -> <<1, 0, 0, 216>>
               [] OTHER -> <<9, 0, 97, 0>>
Header(s) == EncLE(s.v, 4) \o EncLE(s.n, 4) \o EncLE(1, 4) \o <<0, 0, 128, 63>> \o EncLE(7, 4) \o EncLE(0, 4) \o EncLE(9, 4) \o EncLE(1, 4)
Ent(s, i) == EncLE(77, 8) \o [j \in 1..64 |-> j] \o <<104, 111, 115, 116>> \o Zeros(12) \o EncLE(i, 4) \o EncLE(0, 4) \o <<0, 0, 0, 63>> \o EncLE(5, 8)
             \o <<255, 255, 255, 255>> \o (IF s.v >= 2 THEN <<254, 255, 255, 255>> \o EncLE(1, 4) \o EncLE(2, 8) ELSE <<>>)
             \o PathOf(s.p) \o (IF s.v >= 2 THEN EncLE(0, 4) ELSE <<>>)
Lnk == <<76, 0, 0, 0, 1, 20, 2, 0, 0, 0, 0, 0, 192, 0, 0, 0, 0, 0, 0, 70, 0, 0, 0, 0>> \o EncLE(32, 4) \o Zeros(24) \o EncLE(513, 4) \o Zeros(20)
Scen == [opened : {TRUE}, v : Versions, n : 0..MaxEntries, p : Paths, cut : {0, 1, 3}, streams : {"", "1", "1x", "x1", "12"}, dest : {"yes", "empty", "no"}]
One(c) == CASE c = "1" -> [n |-> <<49>>, d |-> Lnk, ok |-> TRUE] [] c = "2" -> [n |-> <<50, 97>>, d |-> Lnk \o Zeros(4), ok |-> TRUE]
            [] OTHER -> [n |-> <<120>>, d |-> [i \in 1..80 |-> i], ok |-> FALSE]
MkSrc(s) == LET d == Header(s) \o FlatSeq([i \in 1..s.n |-> Ent(s, i)])
            IN (IF s.dest = "no" THEN <<>> ELSE <<[n |-> DEST, d |-> IF s.dest = "empty" THEN <<>> ELSE SubSeq(d, 1, Len(d) - s.cut), ok |-> FALSE]>>)
               \o [i \in 1..Len(s.streams) |-> One(SubSeq(s.streams, i, i))]
MCInit == (\E s \in Scen : sc = [s |-> s, src |-> MkSrc(s)]) /\ InitSt
MCSpec == MCInit /\ [][Next]_vars /\ WF_vars(Next)
Terminates == <>Done
MCDump == Done => PrintT("SCEN " \o ToJson([src |-> SS]))
=============================================================================
