------------------------------- MODULE AliasMC -------------------------------
EXTENDS Alias, Json
CONSTANTS MaxTags
MCSrc(x) == x.src
T(tag, size, data) == EncBE(tag, 2) \o EncBE(size, 2) \o data
Part(p) == CASE p = "end" -> T(65535, 0, <<>>)
             [] p = "ints" -> T(1, 8, <<0, 2, 110, 174, 255, 255, 255, 255>>)
             [] p = "ints3" -> T(1, 3, <<1, 2, 3, 0>>)
             [] p = "noints" -> T(1, 0, <<>>)
             [] p = "odd" -> T(18, 3, <<97, 98, 99, 0>>)
             [] p = "utf8" -> T(19, 4, <<195, 169, 47, 0>>)
             [] p = "bad8" -> T(0, 2, <<195, 40>>)
             [] p = "utf16" -> T(14, 6, <<0, 2, 0, 65, 48, 66>>)
             [] p = "over" -> T(15, 4, <<0, 2, 0, 65>>)
             [] p = "under" -> T(15, 6, <<0, 1, 0, 65, 0, 66>>)
             [] p = "lone" -> T(14, 4, <<0, 1, 216, 0>>)
             [] p = "none16" -> T(14, 2, <<0, 0>>)
             [] p = "data" -> T(3, 5, <<0, 1, 255, 128, 7, 9>>)
             [] p = "long" -> T(3, 500, <<0, 1>>)
Parts == {"end", "ints", "ints3", "noints", "odd", "utf8", "bad8", "utf16", "over", "under", "lone", "none16", "data", "long"}
Times == {Zeros(8), <<0, 0, 206, 24, 122, 190, 128, 0>>, <<0, 1, 0, 0, 0, 0, 0, 0>>, <<0, 0, 255, 255, 255, 255, 255, 255>>, <<0, 0, 0, 0, 0, 0, 0, 65>>}
Rec3(t) == EncBE(1, 2) \o t \o <<72, 43, 0, 0>> \o EncBE(5, 2) \o EncBE(159406, 4) \o <<255, 255, 255, 255>> \o Rev(t) \o EncBE(2336, 4) \o [i \in 1..14 |-> i]
Rec2(t) == EncBE(1, 2) \o [i \in 1..28 |-> i * 9] \o SubSeq(t, 3, 6) \o <<72, 43>> \o <<0, 5>> \o EncBE(7, 4) \o [i \in 1..64 |-> 255 - i] \o <<255, 255, 255, 255>> \o EncBE(17, 4) \o Zeros(28)
Scen == UNION {[v : {2, 3}, p : [1..n -> Parts], t : {<<0, 0, 206, 24, 122, 190, 128, 0>>}, d : {0}, cut : {0, 1}, app : {0}] : n \in 0..MaxTags}
        \cup [v : {1, 2, 3, 4}, p : {<<"odd", "end">>}, t : Times, d : {0, 1}, cut : {0, 1, 4, 5, 12, 30, 60}, app : {0, 1}]
Whole(s) == LET body == (IF s.v = 2 THEN Rec2(s.t) ELSE Rec3(s.t)) \o FlatSeq([i \in 1..Len(s.p) |-> Part(s.p[i])])
            IN Zeros(3) \o <<s.app>> \o EncBE(8 + Len(body) - s.cut + s.d, 2) \o EncBE(s.v, 2) \o body
MkSrc(s) == LET w == Whole(s) IN SubSeq(w, 1, Len(w) - s.cut)
MCInit == (\E s \in Scen : sc = [s |-> s, src |-> MkSrc(s)]) /\ InitSt
MCSpec == MCInit /\ [][Next]_vars /\ WF_vars(Next)
Terminates == <>Done
MCDump == Done => PrintT("SCEN " \o ToJson([src |-> F]))
=============================================================================
