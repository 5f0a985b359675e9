------------------------------ MODULE RpLogMC -------------------------------
(* Every description of up to MaxUnits UTF-16 units, terminated or not, and *)
(* every size of the data and footer around the minimum.                    *)
EXTENDS RpLog, Json
CONSTANTS MaxUnits, MaxData
MCSrc(x) == x.src
Units == {<<97, 0>>, <<0, 97>>, <<0, 216>>, <<1, 220>>}
Scen == UNION {[e : {0, 100, 101, 102, 103, 104}, t : {n}, us : [1..n -> Units], z : {0, 1, 2}, x : 0..MaxData] : n \in 0..MaxUnits}
TypeOf(s) == CASE s.t = 0 -> 0 [] s.t = 1 -> 12 [] OTHER -> 10
MkSrc(s) == EncLE(s.e, 4) \o EncLE(TypeOf(s), 4) \o EncLE(7, 8) \o FlatSeq(s.us) \o Zeros(s.z)
            \o [i \in 1..s.x |-> (i * 37) % 255]
MCInit == (\E s \in Scen : sc = [s |-> s, src |-> MkSrc(s)]) /\ InitSt
MCSpec == MCInit /\ [][Next]_vars /\ WF_vars(Next)
Terminates == <>Done
MCDump == Done => PrintT("SCEN " \o ToJson([src |-> F]))
=============================================================================
