-------------------------------- MODULE Tzif ---------------------------------
(* Time zone information file: a block (header, transition times, indexes,  *)
(* local time types, abbreviations, leap seconds, indicators) with 32-bit   *)
(* times; in versions 2 and 3 followed by a block with 64-bit times and the *)
(* time zone string.                                                        *)
EXTENDS Text
CONSTANT Src(_)
VARIABLES sc, st, ev
vars == <<sc, st, ev>>
F == Src(sc)

InitSt == st = [pc |-> "header", w |-> 4, pos |-> 0, h |-> 0, v |-> -1, step |-> 0] /\ ev = <<>>
Fail == st' = [st EXCEPT !.pc = "fail"] /\ ev' = <<>>
Magic == <<84, 90, 105, 102>>

HeaderTable ==
  << Field("Format version", 4, 1, "hex2"), Field("Unknown1", 5, 15, "dump"), Field("Number of UTC time indicators", 20, 4, "dec"),
     Field("Number of standard time indicators", 24, 4, "dec"), Field("Number of leap seconds", 28, 4, "dec"),
     Field("Number of transition times", 32, 4, "dec"), Field("Number of local time types", 36, 4, "dec"),
     Field("Time zone abbreviation strings size", 40, 4, "dec") >>

ReadHeader ==
  /\ st.pc = "header"
  /\ LET p == st.pos IN
     IF ~Fits(F, p, 44) THEN Fail
     ELSE /\ ev' = <<At("file header", p), [k |-> "Signature", v |-> Sub(F, p, 4)]>> \o Fields(F, p, TRUE, HeaderTable)
          /\ st' = IF Sub(F, p, 4) = Magic /\ F[p + 5] \in {0, 50, 51}
                   THEN [st EXCEPT !.pc = "part", !.h = p, !.pos = p + 44, !.step = 1, !.v = IF st.w = 4 THEN F[p + 5] ELSE @]
                   ELSE [st EXCEPT !.pc = "fail"]
  /\ UNCHANGED sc

Cnt(o) == BEi(F, st.h + o, 4)
Size(c, each) == IF c > Len(F) THEN BIG ELSE c * each
PartSize == CASE st.step = 1 -> Size(Cnt(32), st.w)
              [] st.step = 2 -> Cnt(32)
              [] st.step = 3 -> Size(Cnt(36), 6)
              [] st.step = 4 -> Cnt(40)
              [] st.step = 5 -> Size(Cnt(28), st.w + 4)
              [] st.step = 6 -> Cnt(24)
              [] OTHER -> Cnt(20)
PartEv == LET d == Sub(F, st.pos, PartSize)
              n == PartSize \div (IF st.step = 1 THEN st.w ELSE 1)
          IN CASE st.step = 1 -> [i \in 1..n |-> Ln("Transition time: " \o ToString(i - 1), DecS(TwosC(Rev(Sub(d, (i - 1) * st.w, st.w)))))]
               [] st.step = 2 -> [i \in 1..n |-> Ln("Type of local time: " \o ToString(i - 1), DecI(d[i]))]
               [] st.step = 3 -> <<Hexd("Local time types table data", d)>>
               [] st.step = 4 -> <<Hexd("Timezeone abbreviation strings data", d)>>
               [] st.step = 5 -> <<Hexd("Leap second records data", d)>>
               [] st.step = 6 -> <<Hexd("Standard time indicators data", d)>>
               [] OTHER -> <<Hexd("UTC time indicators data", d)>>
ReadPart ==
  /\ st.pc = "part" /\ st.step <= 7
  /\ IF ~Fits(F, st.pos, PartSize) THEN Fail
     ELSE st' = [st EXCEPT !.pos = @ + PartSize, !.step = @ + 1] /\ ev' = PartEv
  /\ UNCHANGED sc
EndBlock ==
  /\ st.pc = "part" /\ st.step = 8
  /\ IF st.w = 4 /\ st.v # 0 THEN st' = [st EXCEPT !.pc = "header", !.w = 8] /\ ev' = <<>>
     ELSE /\ st' = [st EXCEPT !.pc = "done", !.pos = IF st.w = 8 THEN Len(F) ELSE @]
          /\ ev' = (IF st.w = 8 THEN <<Hexd("Time zone string", Sub(F, st.pos, Len(F) - st.pos))>> ELSE <<>>)
                   \o <<[k |-> "!version", v |-> Nat2(st.v)]>>
  /\ UNCHANGED sc

Next == ReadHeader \/ ReadPart \/ EndBlock
Done == st.pc \in {"done", "fail"}
Outcomes == IF st.pc = "done" THEN {"ok"} ELSE {"ParseError"}
-----------------------------------------------------------------------------
Inside == st.pos <= Len(F)
SecondBlock == (st.pc = "done" /\ st.v # 0) => st.w = 8
Forward == [][st'.pos >= st.pos]_vars
=============================================================================
