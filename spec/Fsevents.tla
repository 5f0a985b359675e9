------------------------------ MODULE Fsevents -------------------------------
(* fseventsd: the uncompressed contents are pages of records; version 2     *)
(* records also have a node identifier.                                     *)
EXTENDS Text
CONSTANT Src(_)
VARIABLES sc, st, ev
vars == <<sc, st, ev>>
F == Src(sc)

InitSt == st = [pc |-> "page", off |-> 0, end |-> 0, v |-> 0] /\ ev = <<>>
Fail == st' = [st EXCEPT !.pc = "fail"] /\ ev' = <<>>

PageTable == << Field("Signature", 0, 4, "stream"), Field("Unknown1", 4, 4, "dump"), Field("Page size", 8, 4, "dec") >>
ReadPage ==
  /\ st.pc = "page" /\ st.off < Len(F)
  /\ LET sig == Sub(F, st.off, 4)
         v == CASE sig = <<49, 83, 76, 68>> -> 1 [] sig = <<50, 83, 76, 68>> -> 2 [] OTHER -> 0
     IN IF ~Fits(F, st.off, 12) \/ v = 0 THEN Fail
        ELSE /\ st' = [pc |-> "record", off |-> st.off + 12, end |-> st.off + LEi(F, st.off + 8, 4), v |-> v]
             /\ ev' = <<At("DLS page header", st.off)>> \o Fields(F, st.off, FALSE, PageTable)
  /\ UNCHANGED sc

ReadRecord ==
  /\ st.pc = "record" /\ st.off < st.end
  /\ LET rest == IF st.off >= Len(F) THEN <<>> ELSE SubSeq(F, st.off + 1, Len(F))
         i == IndexOfVal(rest, 0)
         u == Utf8(SubSeq(rest, 1, i - 1))
         b == st.off + i
         n == IF st.v = 1 THEN 12 ELSE 20
     IN IF i = 0 \/ ~Fits(F, b, n) \/ ~u[1] THEN Fail
        ELSE /\ st' = [st EXCEPT !.off = b + n]
             /\ ev' = <<At("DLS record", st.off), Ln("Path", u[2]), Ln("Event identifier", Dec(LE(F, b, 8))),
                        Ln("Flags", Hex(LE(F, b + 8, 4), 4))>>
                      \o (IF st.v = 2 THEN <<Ln("Node identifier", Dec(LE(F, b + 12, 8)))>> ELSE <<>>)
  /\ UNCHANGED sc

EndPage ==
  /\ st.pc = "record" /\ st.off >= st.end
  /\ st' = [st EXCEPT !.pc = "page"] /\ ev' = <<>>
  /\ UNCHANGED sc
Finish ==
  /\ st.pc = "page" /\ st.off >= Len(F)
  /\ st' = [st EXCEPT !.pc = "done"] /\ ev' = <<>>
  /\ UNCHANGED sc

Next == ReadPage \/ ReadRecord \/ EndPage \/ Finish
Done == st.pc \in {"done", "fail"}
Outcomes == IF st.pc = "done" THEN {"ok"} ELSE {"ParseError"}
-----------------------------------------------------------------------------
ReadAll == st.pc = "done" => st.off = Len(F)
Forward == [][st'.off >= st.off]_vars
=============================================================================
