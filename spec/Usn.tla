-------------------------------- MODULE Usn ----------------------------------
(* USN change journal: blocks of 4096 bytes of version 2 records; an empty  *)
(* header, or too little space for one, ends the block.                     *)
EXTENDS Text
CONSTANT Src(_)
VARIABLES sc, st, ev
vars == <<sc, st, ev>>
F == Src(sc)
BLOCK == 4096

InitSt == st = [pc |-> "block", off |-> 0, left |-> 0] /\ ev = <<>>
Fail == st' = [st EXCEPT !.pc = "fail"] /\ ev' = <<>>

StartBlock ==
  /\ st.pc = "block"
  /\ st' = IF st.off < Len(F) THEN [st EXCEPT !.pc = "record", !.left = MinOf(BLOCK, Len(F) - st.off)]
           ELSE [st EXCEPT !.pc = "done"]
  /\ ev' = <<>>
  /\ UNCHANGED sc

Empty == AllZero(Sub(F, st.off, 60))
EndBlock ==
  /\ st.pc = "record" /\ (st.left <= 60 \/ Empty)
  /\ st' = [st EXCEPT !.pc = "block", !.off = @ + MaxOf(0, st.left), !.left = 0] /\ ev' = <<>>
  /\ UNCHANGED sc

RecordTable ==
  << Field("Size", 0, 4, "dec"), Field("Major format version", 4, 2, "dec"), Field("Minor format version", 6, 2, "dec"),
     Field("File reference", 8, 8, "hex8"), Field("Parent file reference", 16, 8, "hex8"), Field("Timestamp", 32, 8, "filetime"),
     Field("Update reason flags", 40, 4, "hex8"), Field("Update source flags", 44, 4, "hex8"),
     Field("Security descriptor entry", 48, 4, "dec"), Field("File attribute flags", 52, 4, "hex8"),
     Field("Name size", 56, 2, "dec"), Field("Name offset", 58, 2, "dec") >>
ReadRecord ==
  /\ st.pc = "record" /\ st.left > 60 /\ ~Empty
  /\ LET o == st.off
         size == LEi(F, o, 4)
         n == LEi(F, o + 56, 2)
         u == Utf16(Sub(F, o + 60, n))
     IN IF LEi(F, o + 4, 2) # 2 \/ LEi(F, o + 6, 2) # 0 \/ size < 60 + n \/ ~Fits(F, o, size) \/ ~u[1] THEN Fail
        ELSE /\ st' = [st EXCEPT !.off = @ + size, !.left = @ - size]
             /\ ev' = <<At("USN record (version 2)", o)>> \o Fields(F, o, FALSE, RecordTable) \o <<Ln("Name", RStrip0(u[2])),
                        [k |-> "!record", ref |-> LE(F, o + 8, 8), parent |-> LE(F, o + 16, 8), usn |-> LE(F, o + 24, 8),
                         time |-> LE(F, o + 32, 8), reason |-> LE(F, o + 40, 4), source |-> LE(F, o + 44, 4),
                         attr |-> LE(F, o + 52, 4), name |-> u[2]]>>
  /\ UNCHANGED sc

Next == StartBlock \/ EndBlock \/ ReadRecord
Done == st.pc \in {"done", "fail"}
Outcomes == IF st.pc = "done" THEN {"ok"} ELSE {"ParseError"}
-----------------------------------------------------------------------------
Forward == [][st'.off >= st.off]_vars
InFile == st.off <= Len(F)
=============================================================================
