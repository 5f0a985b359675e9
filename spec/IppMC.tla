-------------------------------- MODULE IppMC --------------------------------
(* Every sequence of up to MaxTags delimiters and attributes, then the end  *)
(* of attributes tag or a fault.                                            *)
EXTENDS Ipp, Json
CONSTANTS MaxTags, Items, Ends
MCSrc(x) == x.src
At2(t, name, v) == <<t>> \o EncBE(Len(name), 2) \o name \o EncBE(Len(v), 2) \o v
Date == <<7, 232, 2, 29, 23, 59, 59, 9, 43, 13, 59>>
Item(k) == CASE k = "op" -> <<1>> [] k = "job" -> <<2>> [] k = "int" -> At2(33, <<97>>, <<255, 255, 255, 254>>) [] k = "more" -> At2(35, <<>>, <<0, 0, 0, 3>>)
             [] k = "short" -> At2(33, <<97>>, <<1, 2, 3>>) [] k = "yes" -> At2(34, <<98>>, <<1>>) [] k = "maybe" -> At2(34, <<98>>, <<2>>)
             [] k = "none" -> At2(19, <<99>>, <<>>) [] k = "date" -> At2(49, <<100>>, Date) [] k = "feb30" -> At2(49, <<100>>, [Date EXCEPT ![4] = 30])
             [] k = "text" -> At2(65, <<101>>, <<195, 169>>) [] k = "plain" -> At2(66, <<101>>, <<65, 66>>) [] k = "kw" -> At2(68, <<102>>, <<65>>)
             [] k = "kwbad" -> At2(68, <<102>>, <<200>>) [] k = "utf8" -> At2(71, <<103>>, Lit("utf-8")) [] k = "latin" -> At2(71, <<103>>, Lit("ISO-8859-1"))
             [] k = "nocs" -> At2(71, <<103>>, Lit("nope-8")) [] k = "badname" -> At2(68, <<255>>, <<65>>) [] OTHER -> At2(50, <<104>>, Zeros(9))
Tail0(e) == CASE e = "end" -> <<3>> [] e = "none" -> <<>> [] e = "bad" -> <<6>> [] e = "neg" -> <<200, 0>> [] e = "big" -> <<68, 0, 1, 97, 128, 0, 3>> [] OTHER -> <<68, 0, 1, 97, 0, 9, 3>>
Scen == UNION {[is : [1..n -> Items], e : Ends] : n \in 0..MaxTags}
MkSrc(s) == <<2, 255, 128, 1, 0, 0, 0, 9>> \o FlatSeq([i \in 1..Len(s.is) |-> Item(s.is[i])]) \o Tail0(s.e)
MCInit == (\E s \in Scen : sc = [s |-> s, src |-> MkSrc(s)]) /\ InitSt
MCSpec == MCInit /\ [][Next]_vars /\ WF_vars(Next)
Terminates == <>Done
EveryAttribute == st.pc = "done" => st.n = Len(SelectSeq(sc.s.is, LAMBDA k : k \notin {"op", "job"}))
MCDump == Done => PrintT("SCEN " \o ToJson([src |-> F]))
=============================================================================
