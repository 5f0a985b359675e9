------------------------------ MODULE FirefoxMC ------------------------------
EXTENDS Firefox, Json
CONSTANTS MaxParts
MCSrc(x) == x.src
MCKind(x) == x.s.kind
Header(v, size) == EncBE(v, 2) \o EncBE(13, 2) \o EncBE(size, 4) \o <<255, 255, 255, 255>> \o EncBE(1, 4) \o EncBE(8192, 4)
                   \o FlatSeq([i \in 1..64 |-> EncBE(i * 1000003, 4)])
Rec(l) == EncBE(305419896, 4) \o <<255, 255, 255, 255>> \o l \o Rev(l)
Locs == {<<0, 0, 0, 1>>, <<255, 255, 255, 255>>, <<147, 1, 2, 3>>, <<76, 128, 0, 255>>}
PadTo(s, n) == s \o Zeros(n - Len(s))
Req(n) == [i \in 1..n |-> IF i = n THEN 0 ELSE 104]
(* entries of one block, of exactly one block, of two blocks, blocks without *)
(* an entry: another version, a request that is not ASCII, a request or      *)
(* information that does not fit                                             *)
Ent(v, r, n) == EncBE(v, 2) \o EncBE(19, 2) \o <<145, 0, 0, 9>> \o EncBE(3, 4) \o EncBE(1325376000, 4) \o EncBE(0, 4) \o <<255, 255, 255, 255>>
                \o EncBE(7, 4) \o EncBE(Len(r), 4) \o EncBE(n, 4) \o r
Part(p) == CASE p = "one" -> PadTo(Ent(1, Req(4), 3) \o <<0, 66, 200>>, 256)
             [] p = "exact" -> PadTo(Ent(1, Req(20), 200), 256)
             [] p = "two" -> PadTo(Ent(1, Req(20), 201), 512)
             [] p = "free" -> Zeros(256)
             [] p = "old" -> PadTo(Ent(2, Req(20), 300), 256)
             [] p = "binary" -> PadTo(Ent(1, <<104, 128>>, 0), 256)
             [] p = "none" -> PadTo(Ent(1, <<>>, 0), 256)
             [] p = "far" -> PadTo(Ent(1, Req(4), 4000), 256)
             [] p = "huge" -> PadTo(SubSeq(Ent(1, Req(4), 0), 1, 28) \o <<255, 255, 255, 255>> \o Zeros(4), 256)
Parts == {"one", "exact", "two", "free", "old", "binary", "none", "far", "huge"}
Scen == UNION {[kind : {"_CACHE_001_"}, p : [1..n -> Parts], cut : {0, 100, 230}, n : {n}] : n \in 0..MaxParts}
        \cup [kind : {"_CACHE_002_", "_CACHE_003_", "_CACHE_MAP_"}, p : [1..2 -> {"one", "free", "far"}], cut : {0}, n : {2}]
        \cup UNION {[kind : {"map"}, v : {1, 2}, d : {0, 1, 16}, l : [1..n -> Locs], cut : {0, 1, 16}, n : {n}] : n \in 0..2}
Whole(s) == IF s.kind = "map" THEN Header(s.v, 16 * s.n + s.d) \o FlatSeq([i \in 1..s.n |-> Rec(s.l[i])])
            ELSE FlatSeq([i \in 1..s.n |-> Part(s.p[i])])
MkSrc(s) == LET w == Whole(s) IN SubSeq(w, 1, IF s.cut > Len(w) THEN Len(w) ELSE Len(w) - s.cut)
MCInit == (\E s \in Scen : sc = [s |-> s, src |-> MkSrc(s)]) /\ InitSt
MCSpec == MCInit /\ [][Next]_vars /\ WF_vars(Next)
Terminates == <>Done
MCDump == Done => PrintT("SCEN " \o ToJson([src |-> F, kind |-> sc.s.kind]))
=============================================================================
