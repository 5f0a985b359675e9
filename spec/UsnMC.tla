------------------------------- MODULE UsnMC ---------------------------------
(* Two blocks (the second one possibly partial); each filled with records   *)
(* up to some distance from its end.                                        *)
EXTENDS Usn, Json
CONSTANTS Gaps, Counts
MCSrc(x) == x.src
Rec(size, n, i) == EncLE(size, 4) \o EncLE(2, 2) \o EncLE(0, 2) \o EncLE(i, 8) \o EncLE(5, 8) \o EncLE(1000 + i, 8) \o <<0, 64, 110, 60, 149, 21, 213, 1>>
               \o EncLE(256, 4) \o EncLE(0, 4) \o EncLE(7, 4) \o EncLE(32, 4) \o EncLE(n, 2) \o EncLE(60, 2)
               \o FlatSeq([j \in 1..(n \div 2) |-> <<96 + (j % 26), 0>>]) \o Zeros(size - 60 - n)
(* c records of 64 bytes, then one that leaves gap bytes (none if gap = 4096) *)
Fill(c, gap, i) == LET small == FlatSeq([j \in 1..c |-> Rec(64, 4, i + j)])
                       big == IF gap >= BLOCK THEN <<>> ELSE Rec(BLOCK - gap - 64 * c, 6, i + 99)
                   IN small \o big
ToBlock(s) == s \o Zeros(MaxOf(0, BLOCK - Len(s)))
Scen == [c : Counts, g : Gaps, c2 : Counts, tail : {0, 60, 100}]
MkSrc(s) == ToBlock(Fill(s.c, s.g, 0)) \o Fill(s.c2, BLOCK, 10) \o Zeros(s.tail)
MCInit == (\E s \in Scen : sc = [s |-> s, src |-> MkSrc(s)]) /\ InitSt
MCSpec == MCInit /\ [][Next]_vars /\ WF_vars(Next)
Terminates == <>Done
MCDump == Done => PrintT("SCEN " \o ToJson([src |-> F]))
=============================================================================
