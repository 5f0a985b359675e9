------------------------------- MODULE TzifMC -------------------------------
(* All combinations of 0..MaxN counts in both blocks and every truncation   *)
(* of the last bytes.                                                       *)
EXTENDS Tzif, Json
CONSTANTS MaxN, Cuts, MaxX
MCSrc(x) == x.src
Blk(w, v, c, m) == m \o <<v>> \o Zeros(15) \o EncBE(c.u, 4) \o EncBE(c.s, 4) \o EncBE(c.l, 4) \o EncBE(c.t, 4) \o EncBE(c.y, 4) \o EncBE(c.a, 4)
            \o FlatSeq([i \in 1..c.t |-> <<IF i = 1 THEN 255 ELSE 0>> \o Zeros(w - 2) \o <<i>>]) \o [i \in 1..c.t |-> i]
            \o [i \in 1..(6 * c.y) |-> 11 + i] \o [i \in 1..c.a |-> 64 + i] \o [i \in 1..((w + 4) * c.l) |-> 70 + i] \o [i \in 1..c.s |-> 1] \o [i \in 1..c.u |-> 0]
Counts == [u : 0..1, s : 0..1, l : 0..MaxN, t : 0..MaxN, y : 0..1, a : {0, 3}]
Small == [u : {0}, s : {1}, l : {1}, t : 0..MaxN, y : {1}, a : {0, MaxX}]
Scen == [v : {0}, c : Counts, d : {0}, cut : Cuts, tail : {0, 2}] \cup [v : {50, 51, 49}, c : Small, d : Counts, cut : {0, 1}, tail : {0, 2}]
MkSrc(s) == LET a == Blk(4, s.v, s.c, Magic) \o (IF s.v = 0 THEN <<>> ELSE Blk(8, s.v, s.d, IF s.tail = 2 /\ s.cut = 1 THEN <<0, 0, 0, 0>> ELSE Magic)) \o [i \in 1..s.tail |-> 48]
            IN SubSeq(a, 1, Len(a) - s.cut)
MCInit == (\E s \in Scen : sc = [s |-> s, src |-> MkSrc(s)]) /\ InitSt
MCSpec == MCInit /\ [][Next]_vars /\ WF_vars(Next)
Terminates == <>Done
GoodRead == (Done /\ sc.s.cut = 0 /\ sc.s.v # 49) => st.pc = "done"
MCDump == Done => PrintT("SCEN " \o ToJson([src |-> F]))
=============================================================================
