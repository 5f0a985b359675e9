------------------------------ MODULE BookmarkMC -----------------------------
EXTENDS Bookmark, Json
CONSTANTS MaxTags
MCSrc(x) == x.src
R(t2, t1, data) == EncLE(Len(data), 4) \o <<t1, t2, 0, 0>> \o data \o Zeros((4 - (Len(data) % 4)) % 4)
(* the data area: records at fixed offsets                                   *)
Recs == <<R(1, 1, <<85, 115, 195, 169>>), R(1, 1, <<98>>), R(3, 3, <<254, 255, 255, 255>>), R(3, 4, <<255, 255, 255, 255, 255, 255, 255, 127>>), R(3, 1, <<128>>), R(3, 2, <<0, 128>>),
          R(4, 0, <<65, 180, 220, 126, 117, 128, 0, 0>>), R(2, 1, [i \in 1..24 |-> i * 10]), R(2, 1, <<>>), R(4, 0, <<>>), R(5, 1, <<>>), R(3, 5, <<0, 0, 192, 63>>),
          R(3, 6, <<0, 0, 0, 0, 0, 0, 4, 192>>), R(1, 1, <<195, 40>>), R(6, 1, <<1, 2, 3>>)>>
RECURSIVE At0(_)
At0(i) == IF i = 1 THEN 4 ELSE At0(i - 1) + Len(Recs[i - 1])
O(i) == EncLE(At0(i), 4)
Arrays == <<R(6, 1, O(1) \o O(2)), R(6, 1, O(3) \o O(4) \o O(5) \o O(6)), R(6, 1, O(1) \o O(3)), R(6, 1, <<>>), R(6, 1, O(14)), R(6, 1, <<255, 255, 255, 255>>), R(6, 1, O(7))>>
RECURSIVE At1(_)
At1(i) == IF i = 1 THEN At0(Len(Recs)) + Len(Recs[Len(Recs)]) ELSE At1(i - 1) + Len(Arrays[i - 1])
Where(x) == IF x = 0 THEN 100000 ELSE IF x <= Len(Recs) THEN At0(x) ELSE At1(x - Len(Recs))
Last == Len(Recs) + Len(Arrays)
Area == FlatSeq(Recs) \o FlatSeq(Arrays)
Tags == {4100, 4101, 4112, 8224, 4096, 61456}
Scen == [t : Tags, x : [1..1 -> 0..Last], d : {0}, cut : {0}, next : {0}, u : {254}, sig : {98}, n : {0}]
        \cup [t : {4100, 4096}, x : [1..MaxTags -> {1, 2, 7, 16, 17, 19}], d : {0, 1}, cut : {0, 1}, next : {0}, u : {254}, sig : {98}, n : {0}]
        \cup [t : {4100}, x : [1..1 -> {16}], d : {0, 1}, cut : {0, 4, 12, 20, 500, 560}, next : {0, 1}, u : {254, 255}, sig : {98, 97}, n : {0, 1}]
Whole(s) == LET body == EncLE(4 + Len(Area), 4) \o Area \o EncLE(8 + 12 * Len(s.x), 4) \o <<s.u, 255, 255, 255>> \o EncLE(1, 4) \o EncLE(s.next, 4)
                        \o EncLE(Len(s.x) + s.n, 4) \o FlatSeq([i \in 1..Len(s.x) |-> EncLE(IF i = 1 THEN s.t ELSE 4101, 4) \o EncLE(Where(s.x[i]), 4) \o EncLE(0, 4)])
            IN (IF s.sig = 98 THEN <<98, 111, 111, 107>> ELSE <<97, 108, 105, 116>>) \o EncLE(48 + Len(body) - s.cut + s.d, 4) \o <<0, 0, 4, 16>> \o EncLE(48, 4) \o [i \in 1..32 |-> i] \o body
MkSrc(s) == LET w == Whole(s) IN SubSeq(w, 1, MaxOf(0, Len(w) - s.cut))
MCInit == (\E s \in Scen : sc = [s |-> s, src |-> MkSrc(s)]) /\ InitSt
MCSpec == MCInit /\ [][Next]_vars /\ WF_vars(Next)
Terminates == <>Done
MCDump == Done => PrintT("SCEN " \o ToJson([src |-> F]))
=============================================================================
