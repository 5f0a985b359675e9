------------------------------- MODULE GzipMC -------------------------------
(* Up to MaxMembers members with every combination of optional fields, and  *)
(* stored or empty DEFLATE streams; one fault in the last member.           *)
EXTENDS Gzip, Json
CONSTANTS MaxMembers, Flagss, Faults, Streams
MCSrc(x) == x.src
Stored(d) == <<1>> \o EncLE(Len(d), 2) \o EncLE(65535 - Len(d), 2) \o d
Stream(k) == CASE k = "empty" -> <<3, 0>> [] k = "none" -> Stored(<<>>) [] k = "three" -> Stored(<<97, 98, 99>>)
               [] k = "two" -> <<0, 1, 0, 254, 255, 65>> \o Stored(<<66>>) [] OTHER -> <<7>>
Bit(v, b) == (v \div b) % 2 = 1
Member(m, f) ==
  (IF f = "magic" THEN <<31, 140>> ELSE <<31, 139>>) \o <<IF f = "method" THEN 200 ELSE 8, m.f>> \o <<1, 2, 3, IF m.f = 0 THEN 200 ELSE 4>> \o <<2, 3>>
  \o (IF Bit(m.f, 4) THEN <<3, 0, 7, 8, 9>> ELSE <<>>) \o (IF Bit(m.f, 8) THEN <<97, 46, 233, 0>> ELSE <<>>)
  \o (IF Bit(m.f, 16) THEN <<99, 0>> ELSE <<>>) \o (IF Bit(m.f, 2) THEN <<9, 9>> ELSE <<>>)
  \o Stream(IF f = "stream" THEN "bad" ELSE m.s) \o <<1, 2, 3, 4, 5, 0, 0, 0>>
RECURSIVE StoredEnd(_, _)
StoredEnd(s, o) ==
  IF o >= Len(s) THEN -1
  ELSE IF s[o + 1] \in {0, 1} THEN
    LET n == LEi(s, o + 1, 2) IN
    IF ~Fits(s, o + 1, 4) \/ n + LEi(s, o + 3, 2) # 65535 \/ ~Fits(s, o + 5, n) THEN -1
    ELSE IF s[o + 1] = 1 THEN o + 5 + n ELSE StoredEnd(s, o + 5 + n)
  ELSE IF Sub(s, o, 2) = <<3, 0>> THEN o + 2 ELSE -1
MCInf(x) == [o \in 1..Len(x.src) |-> StoredEnd(x.src, o - 1)]
Scen == UNION {[f : Faults, ms : [1..n -> [f : Flagss, s : Streams]]] : n \in 1..MaxMembers}
MkSrc(s) == LET a == FlatSeq([i \in 1..Len(s.ms) |-> Member(s.ms[i], IF i = Len(s.ms) THEN s.f ELSE "none")])
            IN CASE s.f = "cut1" -> SubSeq(a, 1, Len(a) - 1) [] s.f = "cut9" -> SubSeq(a, 1, Len(a) - 9) [] s.f = "cut16" -> SubSeq(a, 1, Len(a) - 16) [] OTHER -> a
MCInit == (\E s \in Scen : sc = [s |-> s, src |-> MkSrc(s)]) /\ InitSt
MCSpec == MCInit /\ [][Next]_vars /\ WF_vars(Next)
Terminates == <>Done
EveryMember == st.pc = "done" => st.n = Len(sc.s.ms)
GoodRead == (Done /\ sc.s.f = "none") => st.pc = "done"
MCDump == Done => PrintT("SCEN " \o ToJson([src |-> F]))
=============================================================================
