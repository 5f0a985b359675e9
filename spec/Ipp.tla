--------------------------------- MODULE Ipp ---------------------------------
(* CUPS Internet Printing Protocol file: a header, then tags until the end  *)
(* of attributes tag: delimiters of attribute groups and attributes.  A     *)
(* text or name is decoded with the last character set attribute before it. *)
EXTENDS Text
CONSTANT Src(_)
VARIABLES sc, st, ev
vars == <<sc, st, ev>>
F == Src(sc)

InitSt == st = [pc |-> "header", pos |-> 0, cs |-> Lit("ascii"), n |-> 0] /\ ev = <<>>
Fail == st' = [st EXCEPT !.pc = "fail"] /\ ev' = <<>>

HeaderTable == << Field("Major format version", 0, 1, "sdec"), Field("Minor format version", 1, 1, "sdec"),
                  Field("Operation identifier", 2, 2, "shex4"), Field("Request identifier", 4, 4, "shex8") >>
ReadHeader ==
  /\ st.pc = "header"
  /\ IF ~Fits(F, 0, 8) THEN Fail
     ELSE st' = [st EXCEPT !.pc = "tag", !.pos = 8] /\ ev' = <<At("header", 0)>> \o Fields(F, 0, TRUE, HeaderTable)
  /\ UNCHANGED sc

ReadTag ==
  /\ st.pc = "tag"
  /\ IF ~Fits(F, st.pos, 1) THEN Fail
     ELSE LET t == F[st.pos + 1] IN
          /\ ev' = <<At("tag value", st.pos)>>
          /\ st' = CASE t = 3 -> [st EXCEPT !.pc = "done", !.pos = @ + 1]
                     [] t \in {1, 2, 4, 5} -> [st EXCEPT !.pos = @ + 1]
                     [] t >= 16 /\ t < 128 -> [st EXCEPT !.pc = "attr"]
                     [] OTHER -> [st EXCEPT !.pc = "fail"]
  /\ UNCHANGED sc

TagName(t) == CASE t = 19 -> "no-value" [] t = 33 -> "integer" [] t = 34 -> "boolean" [] t = 35 -> "enum" [] t = 48 -> "octetString"
                [] t = 49 -> "dateTime" [] t = 50 -> "resolution" [] t = 51 -> "rangeOfInteger" [] t = 53 -> "textWithLanguage"
                [] t = 54 -> "nameWithLanguage" [] t = 65 -> "textWithoutLanguage" [] t = 66 -> "nameWithoutLanguage" [] t = 68 -> "keyword"
                [] t = 69 -> "uri" [] t = 70 -> "uriScheme" [] t = 71 -> "charset" [] t = 72 -> "naturalLanguage" [] t = 73 -> "mimeMediaType"
                [] OTHER -> "UNKNOWN"
Lower(s) == [i \in 1..Len(s) |-> IF s[i] >= 65 /\ s[i] <= 90 THEN s[i] + 32 ELSE s[i]]
Ascii(s) == <<IsAscii(s), s>>
Decode(cs, s) == LET c == Lower(cs) IN
  CASE c \in {Lit("ascii"), Lit("us-ascii")} -> Ascii(s)
    [] c = Lit("utf-8") -> Utf8(s)
    [] c = Lit("iso-8859-1") -> <<TRUE, s>>
    [] OTHER -> <<s = <<>>, <<>>>>   \* nothing to decode

Leap(y) == y % 4 = 0 /\ (y % 100 # 0 \/ y % 400 = 0)
MonthDays(y, m) == CASE m \in {4, 6, 9, 11} -> 30 [] m = 2 -> (IF Leap(y) THEN 29 ELSE 28) [] OTHER -> 31
DateOk(d) == LET y == d[1] * 256 + d[2] IN
  /\ d[3] \in 1..12 /\ d[4] >= 1 /\ d[4] <= MonthDays(y, d[3]) /\ d[5] < 24 /\ d[6] < 60 /\ d[7] < 60 /\ d[8] <= 9
  /\ d[9] \in {43, 45} /\ d[10] < 14 /\ d[11] < 60
DateOf(d) == ZeroPadOver(d[1] * 256 + d[2], 4) \o <<45>> \o Two(d[3]) \o <<45>> \o Two(d[4]) \o <<32>> \o Two(d[5]) \o <<58>> \o Two(d[6])
             \o <<58>> \o Two(d[7]) \o <<46, 48 + d[8]>>

(* the value of an attribute: <<ok, events>> *)
Value(t, v) ==
  LET show(x) == <<Ln("Value", x)>>
      text(u) == <<u[1], show(u[2])>>
  IN CASE t \in {33, 35} -> IF Len(v) < 4 THEN <<FALSE, <<>>>> ELSE <<TRUE, show(DecS(TwosC(Rev(SubSeq(v, 1, 4)))))>>
       [] t = 34 -> IF v = <<0>> THEN <<TRUE, show(Lit("False"))>> ELSE IF v = <<1>> THEN <<TRUE, show(Lit("True"))>> ELSE <<FALSE, <<>>>>
       [] t = 49 -> IF Len(v) < 11 THEN <<FALSE, <<>>>> ELSE IF ~DateOk(v) THEN <<FALSE, <<>>>> ELSE <<TRUE, show(DateOf(v))>>
       [] t \in {65, 66} -> text(Decode(st.cs, v))
       [] t \in 68..73 -> text(Ascii(v))
       [] OTHER -> <<TRUE, <<>>>>

ReadAttribute ==
  /\ st.pc = "attr"
  /\ LET p == st.pos
         t == F[p + 1]
         n == BEi(F, p + 1, 2)
         q == p + 3 + n
         m == BEi(F, q, 2)
         name == Utf8(Sub(F, p + 3, n))
     IN IF ~Fits(F, p, 3) \/ n >= 32768 \/ ~Fits(F, p + 3, n) \/ ~Fits(F, q, 2) \/ m >= 32768 \/ ~Fits(F, q + 2, m) \/ ~name[1] THEN Fail
        ELSE LET v == Sub(F, q + 2, m)
                 x == Value(t, v)
                 e == <<At("attribute", p), Ln("Tag value", Hex(<<t>>, 2) \o <<32, 40>> \o Lit(TagName(t)) \o <<41>>), Ln("Name size", DecI(n)),
                        Ln("Name", RStrip0(name[2])), Ln("Value data size", DecI(m)), Hexd("Value data", v)>>
             IN IF ~x[1] THEN st' = [st EXCEPT !.pc = "fail"] /\ ev' = e
                ELSE /\ st' = [st EXCEPT !.pc = "tag", !.pos = q + 2 + m, !.n = @ + 1, !.cs = IF t = 71 THEN v ELSE @]
                     /\ ev' = e \o x[2]
  /\ UNCHANGED sc

Next == ReadHeader \/ ReadTag \/ ReadAttribute
Done == st.pc \in {"done", "fail"}
Outcomes == IF st.pc = "done" THEN {"ok"} ELSE {"ParseError"}
-----------------------------------------------------------------------------
EndsAtEndTag == st.pc = "done" => F[st.pos] = 3
Inside == st.pos <= Len(F)
Forward == [][st'.pos >= st.pos]_vars
=============================================================================
