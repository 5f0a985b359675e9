-------------------------------- MODULE WemfMC --------------------------------
EXTENDS Wemf, Json
CONSTANTS EmfRecords, WmfRecords, DataSizes, MaxRecords
MCSrc(x) == x.src
MCKind(x) == x.s.kind
Fill(n) == [i \in 1..n |-> (i * 37) % 256]
EmfHead(size) == EncLE(1, 4) \o EncLE(size, 4) \o Zeros(32) \o Lit(" EMF") \o EncLE(65536, 4) \o EncLE(200, 4) \o EncLE(3, 4) \o Zeros(52) \o Fill(IF size > 108 THEN size - 108 ELSE 0)
WmfHead(t) == EncLE(t, 2) \o EncLE(9, 2) \o EncLE(768, 2) \o Zeros(12)
Emf(r) == EncLE(r[1], 4) \o EncLE(8 + r[2] + r[3], 4) \o Fill(r[2])
Wmf(r) == EncLE((6 + r[2]) \div 2 + r[3], 4) \o EncLE(r[1], 2) \o Fill(r[2])
Recs(types) == types \X DataSizes \X {0, 1}
Scen == [kind : {"emf"}, head : {87, 88, 108, 120}, rs : UNION {[1..k -> Recs(EmfRecords)] : k \in 0..MaxRecords}, cut : {0, 1}]
   \cup [kind : {"wmf"}, head : {1, 3, 22}, rs : UNION {[1..k -> Recs(WmfRecords)] : k \in 0..MaxRecords}, cut : {0, 1}]
MkSrc(s) == LET d == IF s.kind = "emf" THEN EmfHead(s.head) \o FlatSeq([i \in 1..Len(s.rs) |-> Emf(s.rs[i])])
                     ELSE (IF s.head = 22 THEN PLACEABLE \o Fill(18) \o WmfHead(2) ELSE WmfHead(s.head)) \o FlatSeq([i \in 1..Len(s.rs) |-> Wmf(s.rs[i])])
            IN SubSeq(d, 1, Len(d) - s.cut)
MCInit == (\E s \in Scen : sc = [s |-> s, src |-> MkSrc(s)]) /\ InitSt
MCSpec == MCInit /\ [][Next]_vars /\ WF_vars(Next)
Terminates == <>Done
MCDump == Done => PrintT("SCEN " \o ToJson([src |-> F, kind |-> sc.s.kind]))
=============================================================================
