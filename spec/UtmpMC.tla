------------------------------- MODULE UtmpMC --------------------------------
EXTENDS Utmp, Json
CONSTANTS MaxEntries
MCSrc(x) == x.src
MCKind(x) == x.s.kind
L(t, ip) == EncLE(t, 4) \o EncLE(321, 4) \o <<112, 116, 115>> \o Zeros(29) \o EncLE(49, 4) \o <<114, 195, 169>> \o Zeros(29)
            \o <<104>> \o Zeros(255) \o <<255, 255, 1, 0>> \o EncLE(7, 4) \o <<255, 255, 255, 255>> \o EncLE(5, 4) \o ip \o Zeros(20)
M(t, name) == name \o Zeros(256 - Len(name)) \o EncLE(3, 4) \o <<99>> \o Zeros(31) \o EncLE(9, 4) \o EncLE(t, 2) \o <<1, 128>>
              \o EncLE(1325376000, 4) \o EncLE(1, 4) \o <<108>> \o Zeros(255) \o Zeros(64)
IPs == {<<192, 168, 1, 255>> \o Zeros(12), Zeros(16), [i \in 1..16 |-> i * 15], Zeros(15) \o <<1>>}
Names == {SIGN, <<117, 116, 109, 112, 120, 45, 49, 46, 48, 49>>, <<114, 111, 111, 116>>, <<255, 65>>}
Scen == UNION {[kind : {"linux"}, t : [1..n -> {0, 9, 10, 255}], ip : IPs, x : {0, 1, 383}, n : {n}] : n \in 0..MaxEntries}
        \cup UNION {[kind : {"mac"}, t : [1..n -> {10, 11, 12}], nm : Names, x : {0, 1, 627}, n : {n}] : n \in 0..MaxEntries}
MkSrc(s) == (IF s.kind = "linux" THEN FlatSeq([i \in 1..s.n |-> L(s.t[i], s.ip)])
             ELSE FlatSeq([i \in 1..s.n |-> M(s.t[i], IF i = 1 THEN s.nm ELSE <<114>>)])) \o Zeros(s.x)
MCInit == (\E s \in Scen : sc = [s |-> s, src |-> MkSrc(s)]) /\ InitSt
MCSpec == MCInit /\ [][Next]_vars /\ WF_vars(Next)
Terminates == <>Done
MCDump == Done => PrintT("SCEN " \o ToJson([src |-> F, kind |-> sc.s.kind]))
=============================================================================
