---------------------------- MODULE LogFormatMC -----------------------------
(* Every operator of up to the given flags, widths, precisions, length       *)
(* modifiers and specifiers with edge values, and every format string of up  *)
(* to MaxLen characters of the operator alphabet.                            *)
EXTENDS LogFormat, Json
CONSTANTS MaxLen, Mods, Full
MCSrc(x) == x.src
Flags == IF Full THEN {<<>>, <<45>>, <<48>>, <<43>>, <<32>>, <<35>>, <<43, 48>>, <<48, 45>>, <<35, 48>>, <<45, 35>>, <<32, 43>>, <<43, 45, 35>>}
         ELSE {<<>>, <<45>>, <<48>>, <<43>>, <<32, 35>>, <<35, 48>>}
Widths == {<<>>, Lit("4"), <<42>>, Lit("12")}
Precs == IF Full THEN {<<>>, <<46>>, Lit(".*"), Lit(".2"), Lit(".0")} ELSE {<<>>, <<46>>, Lit(".2")}
ModTexts == <<<<>>, Lit("h"), Lit("hh"), Lit("ll"), Lit("q"), Lit("L"), Lit("z"), Lit("j"), Lit("t"), Lit("l")>>
Specs == {Ch("d"), Ch("x"), Ch("o"), Ch("c"), Ch("p"), Ch("s"), Ch("f"), Ch("g"), Ch("e"), Ch("m"), Ch("u"), Ch("X"), Ch("@"), Ch("P"), Ch("i"), Ch("S"), Ch("n"), Ch("k")}
Ints == {<<0>>, <<65>>, <<255>>, <<0, 0, 0, 128>>, <<2, 0, 0, 0>>, <<>>}
Floats == {Zeros(8), <<0, 0, 0, 0, 0, 0, 248, 63>>, <<102, 102, 102, 102, 102, 102, 254, 192>>, <<0, 0, 0, 63>>}
Vals(c) == IF InStr(c, "fge") THEN Floats ELSE IF InStr(c, "s@PS") THEN {<<>>, <<97, 98, 99, 0>>, <<195, 169, 120>>, <<255>>} ELSE Ints
Ops == UNION {[kind : {"op"}, fl : Flags, w : Widths, p : Precs, m : 1..Mods, c : {c}, v : Vals(c)] : c \in Specs}
Alpha == {37, 123, 125, Ch("d"), Ch("a"), Ch("-")}
Strs == UNION {[kind : {"str"}, s : [1..n -> Alpha]] : n \in 0..MaxLen}
MkSrc(s) == IF s.kind = "op" THEN [fmt |-> <<91, 37>> \o s.fl \o s.w \o s.p \o ModTexts[s.m] \o <<s.c, 93>>, items |-> <<s.v>>]
            ELSE [fmt |-> s.s, items |-> <<<<7>>>>]
MCInit == (\E s \in Ops \cup Strs : sc = [src |-> MkSrc(s)]) /\ InitSt
MCSpec == MCInit /\ [][Next]_vars /\ WF_vars(Next)
Terminates == <>Done
MCDump == Done => PrintT("SCEN " \o ToJson([src |-> S]))
=============================================================================
