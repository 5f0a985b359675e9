------------------------------ MODULE SafariMC ------------------------------
(* Up to MaxPages pages with 0..MaxRecs records whose string offsets are    *)
(* absent, good, shared, unterminated or outside of the page; page sizes    *)
(* exact, short or long.                                                    *)
EXTENDS Safari, Json
CONSTANTS MaxPages, MaxRecs, Refs, Sizes
MCSrc(x) == x.src
AllSizes == {-5, 0, 3}

RLEN == 56 + 8
StrOff(r) == CASE r = "none" -> 0 [] r = "good" -> 56 [] r = "mid" -> 58 [] r = "end" -> 59 [] OTHER -> 100000
Rec(r, q) == EncLE(RLEN, 4) \o EncLE(1, 4) \o EncLE(5, 4) \o EncLE(0, 4) \o EncLE(StrOff(r), 4) \o EncLE(56, 4)
             \o EncLE(0, 4) \o EncLE(StrOff(q), 4) \o Zeros(8) \o <<0, 0, 0, 0, 0, 0, 240, 63>> \o <<0, 0, 0, 128, 132, 46, 177, 65>>
             \o <<97, 98, 99, 0, 100, 101, 102, 0>>
PageOf(n, r, q) == EncLE(256, 4) \o EncLE(n, 4) \o FlatSeq([i \in 1..n |-> EncLE(12 + 4 * n + (i - 1) * RLEN, 4)]) \o Zeros(4)
                   \o FlatSeq([i \in 1..n |-> Rec(r, q)])
Len0(n, d) == 12 + 4 * n + n * RLEN + d
Scen == UNION {[p : {p}, n : [1..p -> 0..MaxRecs], r : Refs, q : Refs, d : [1..p -> Sizes]] : p \in 0..MaxPages}
MkSrc(s) == <<99, 111, 111, 107>> \o EncBE(s.p, 4) \o FlatSeq([i \in 1..s.p |-> EncBE(Len0(s.n[i], s.d[i]), 4)])
            \o FlatSeq([i \in 1..s.p |-> LET g == PageOf(s.n[i], s.r, s.q) IN
                         IF s.d[i] >= 0 THEN g \o Zeros(s.d[i]) ELSE SubSeq(g, 1, Len(g) + s.d[i])])
            \o <<1, 2, 3, 4, 5, 6, 7, 8>>
MCInit == (\E s \in Scen : sc = [s |-> s, src |-> MkSrc(s)]) /\ InitSt
MCSpec == MCInit /\ [][Next]_vars /\ WF_vars(Next)
Terminates == <>Done
MCDump == Done => PrintT("SCEN " \o ToJson([src |-> F]))
=============================================================================
