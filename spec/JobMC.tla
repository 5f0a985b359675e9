-------------------------------- MODULE JobMC --------------------------------
EXTENDS Job, Json
CONSTANTS Texts, MaxTriggers
MCSrc(x) == x.src
Fixed == <<1, 6, 1, 0>> \o [i \in 1..16 |-> i] \o EncLE(70, 2) \o EncLE(300, 2) \o EncLE(3, 2) \o EncLE(60, 2) \o EncLE(60, 2) \o EncLE(10, 2)
         \o EncLE(32, 4) \o EncLE(259200000, 4) \o EncLE(0, 4) \o EncLE(267011, 4) \o EncLE(19923136, 4)
         \o EncLE(2012, 2) \o EncLE(4, 2) \o EncLE(6, 2) \o EncLE(9, 2) \o EncLE(13, 2) \o EncLE(9, 2) \o EncLE(5, 2) \o EncLE(77, 2)
S(t) == CASE t = "empty" -> <<0, 0>> [] t = "nul" -> <<1, 0, 0, 0>> [] t = "ab" -> <<3, 0, 97, 0, 98, 0, 0, 0>> [] t = "raw" -> <<2, 0, 97, 0, 98, 0>>
          [] t = "mid" -> <<4, 0, 97, 0, 0, 0, 98, 0, 0, 0>> [] t = "half" -> <<1, 0, 0, 216>> [] OTHER -> <<255, 255, 97, 0>>
Trig(i) == EncLE(48, 2) \o Zeros(2) \o EncLE(2012 + i, 2) \o EncLE(3, 2) \o EncLE(4, 2) \o Zeros(6) \o EncLE(13, 2) \o EncLE(5, 2)
           \o EncLE(1440, 4) \o EncLE(60, 4) \o EncLE(i, 4) \o EncLE(1, 4) \o Zeros(12)
Scen == [a : Texts, b : Texts, ud : {0, 2}, rd : {0, 8}, tn : 0..MaxTriggers, dt : {0, 1}, x : {0, 7}, cut : {0, 1}]
MkSrc(s) == LET d == Fixed \o EncLE(0, 2) \o S(s.a) \o S("ab") \o S(s.b) \o S("empty") \o S(s.a) \o EncLE(s.ud, 2) \o [i \in 1..s.ud |-> 160 + i] \o EncLE(s.rd, 2)
                     \o [i \in 1..s.rd |-> i] \o EncLE(s.tn + s.dt, 2) \o FlatSeq([i \in 1..s.tn |-> Trig(i)]) \o Zeros(s.x)
            IN SubSeq(d, 1, Len(d) - s.cut)
MCInit == (\E s \in Scen : sc = [s |-> s, src |-> MkSrc(s)]) /\ InitSt
MCSpec == MCInit /\ [][Next]_vars /\ WF_vars(Next)
Terminates == <>Done
MCDump == Done => PrintT("SCEN " \o ToJson([src |-> F]))
=============================================================================
