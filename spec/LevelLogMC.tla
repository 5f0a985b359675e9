----------------------------- MODULE LevelLogMC ------------------------------
(* What a log writer does: records of every size in Sizes are written,      *)
(* split at the pages, and read back; plus damaged fragments.               *)
EXTENDS LevelLog, Json
CONSTANTS PageSize, Sizes, Damage, Dump
MCSrc(x) == x.src
MCPage(x) == PageSize
MCKind(x) == x.s.kind

Slice(n, c) == <<n>> \o [i \in 1..n |-> c]
LogRecord(n, i) == EncLE(i, 8) \o EncLE(2, 4) \o <<1>> \o Slice(1, 97) \o Slice(n, 98) \o <<0>> \o Slice(2, 99)
TagRecord(n, i) == CASE i = 1 -> <<1>> \o Slice(n, 65) \o <<2, 200, 1, 3, 5, 4, 255, 255, 3>>
                     [] i = 2 -> <<9, 0, 5, 1>> \o Slice(n, 7) \o <<6, 2, 3>>
                     [] OTHER -> <<7, 0, 4, 129, 2>> \o Slice(n, 107) \o Slice(1, 108)
Frag(t, d) == <<1, 2, 3, 4>> \o EncLE(Len(d), 2) \o <<t>> \o d
(* the writer: from the bytes written so far                                *)
RECURSIVE Put(_, _, _)
Put(out, d, first) ==
  LET left == PageSize - (Len(out) % PageSize) IN
  IF left <= 6 THEN Put(out \o Zeros(left), d, first)
  ELSE IF Len(d) <= left - 7 THEN out \o Frag(IF first THEN 1 ELSE 4, d)
  ELSE Put(out \o Frag(IF first THEN 2 ELSE 3, Sub(d, 0, left - 7)), Sub(d, left - 7, Len(d) - (left - 7)), FALSE)
Damaged(s, b) == CASE s.d = "none" -> b
                   [] s.d = "cut" -> Sub(b, 0, Len(b) - 1)
                   [] s.d = "short" -> b \o <<1, 1, 1>>
                   [] s.d = "zeros" -> b \o Zeros(7)
                   [] s.d = "type" -> b \o Frag(5, <<1>>)
                   [] s.d = "last" -> b \o Frag(4, <<0, 1, 9>>)
                   [] s.d = "empty" -> b \o Frag(1, <<>>)
                   [] s.d = "slice" -> b \o Frag(1, Zeros(12) \o <<0, 5, 1>>)
                   [] s.d = "varint" -> b \o Frag(1, Zeros(12) \o <<1, 0, 128>>)
                   [] s.d = "vtype" -> b \o Frag(1, Zeros(12) \o <<2, 0>>)
                   [] s.d = "tag" -> b \o Frag(1, <<8, 0>>)
                   [] s.d = "utf8" -> b \o Frag(1, <<1, 1, 200>>)
Scen == [kind : {"log", "descriptor"}, a : Sizes, b : Sizes, c : Sizes \cup {-1}, d : Damage]
Rec(s, n, i) == IF s.kind = "log" THEN LogRecord(n, i) ELSE TagRecord(n, i)
MkSrc(s) == LET f1 == Put(<<>>, Rec(s, s.a, 1), TRUE)
                f2 == Put(f1, Rec(s, s.b, 2), TRUE)
            IN Damaged(s, IF s.c < 0 THEN f2 ELSE Put(f2, Rec(s, s.c, 3), TRUE))
MCInit == (\E s \in Scen : sc = [s |-> s, src |-> MkSrc(s)]) /\ InitSt
MCSpec == MCInit /\ [][Next]_vars /\ WF_vars(Next)
Terminates == <>Done
(* everything that was written is read back, record by record               *)
ReadBack == st.pc = "done" /\ sc.s.d = "none" => st.n = (IF sc.s.c < 0 THEN 2 ELSE 3)
NoFailure == sc.s.d = "none" => st.pc # "fail"
Whole == st.pc = "record" /\ sc.s.d = "none" =>
           \E i \in 1..3 : st.rec = Rec(sc.s, IF i = 1 THEN sc.s.a ELSE IF i = 2 THEN sc.s.b ELSE sc.s.c, i) /\ i = st.n + 1
MCDump == Done /\ Dump => PrintT("SCEN " \o ToJson([src |-> F, kind |-> sc.s.kind]))
=============================================================================
