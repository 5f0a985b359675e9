-------------------------------- MODULE BsmMC --------------------------------
EXTENDS Bsm, Json
CONSTANTS Headers, Tokens, MaxTokens, MaxRecords
MCSrc(x) == x.src
EncBEn(v, n) == Rev(EncLE(v, n))
Head1(t, n) == CASE t = 20 -> <<20>> \o EncBEn(n, 4) \o <<11, 0, 1, 0, 2>> \o EncBEn(1, 4) \o EncBEn(7, 4)
                 [] t = 121 -> <<121>> \o EncBEn(n, 4) \o <<11, 175, 200, 0, 0, 0, 0, 0, 4, 127, 0, 0, 1>> \o EncBEn(0, 8) \o EncBEn(999999, 8)
                 [] t = 21 -> <<21>> \o EncBEn(n, 4) \o <<11, 0, 0, 0, 0, 0, 0, 0, 5, 127, 0, 0, 1, 2>> \o EncBEn(9, 4) \o EncBEn(3, 4)
                 [] OTHER -> <<20>> \o EncBEn(n, 4) \o <<10, 0, 1, 0, 2>> \o EncBEn(1, 4) \o EncBEn(7, 4)
Tok(t) == CASE t = "text" -> <<40, 0, 3, 97, 98, 0>> [] t = "empty" -> <<35, 0, 0>> [] t = "args" -> <<60, 0, 0, 0, 2, 97, 0, 0>>
            [] t = "noargs" -> <<61, 0, 0, 0, 0>> [] t = "high" -> <<40, 0, 1, 200>> [] t = "groups" -> <<52, 0, 0, 0, 1, 0, 0, 0, 20>>
            [] t = "ip6" -> <<126, 0, 0, 0, 16>> \o [i \in 1..16 |-> i] [] t = "sock" -> <<127, 0, 2, 0, 1, 0, 4, 0, 80, 1, 2, 3, 4, 0, 81, 5, 6, 7, 8>>
            [] t = "head" -> Head1(20, 18) [] t = "unknown" -> <<99>> [] t = "exit" -> <<82, 0, 0, 0, 1, 0, 0, 0, 0>> [] t = "many" -> <<59, 255, 255, 255, 255>>
            [] OTHER -> <<130, 0, 1, 47, 0>>
(* the size in the header is off by h, that in the trailer by w; "none" has *)
(* no trailer                                                               *)
Rec(r) == LET body == FlatSeq([i \in 1..Len(r.ts) |-> Tok(r.ts[i])])
              n == Len(Head1(r.h, 0)) + Len(body) + 7
          IN Head1(r.h, n + r.e[1]) \o body \o (IF r.e[3] = 0 THEN <<>> ELSE <<19>> \o (IF r.e[3] = 2 THEN <<0, 0>> ELSE <<177, 5>>) \o EncBEn(n + r.e[2], 4))
Errs == {<<0, 0, 1>>, <<0, 1, 1>>, <<2, 2, 1>>, <<0, 0, 0>>, <<0, 0, 2>>}
R1 == [h : Headers, ts : UNION {[1..k -> Tokens] : k \in 0..MaxTokens}, e : Errs \cup {<<-8, -8, 1>>}]
R2 == [h : {20, 121}, ts : {<<>>, <<"text">>}, e : {<<0, 0, 1>>, <<0, 0, 0>>}]
Scen == {<<r>> : r \in R1} \cup (IF MaxRecords > 1 THEN {<<a, b>> : a \in [h : {20, 121}, ts : {<<>>} \cup {<<t>> : t \in Tokens}, e : {<<0, 0, 1>>, <<0, 0, 0>>}], b \in R2} ELSE {}) \cup {<<>>}
MkSrc(s) == FlatSeq([i \in 1..Len(s) |-> Rec(s[i])])
MCInit == (\E s \in Scen : sc = [s |-> s, src |-> MkSrc(s)]) /\ InitSt
MCSpec == MCInit /\ [][Next]_vars /\ WF_vars(Next)
Terminates == <>Done
MCDump == Done => PrintT("SCEN " \o ToJson([src |-> F]))
=============================================================================
