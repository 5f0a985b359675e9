----------------------------- MODULE RecycleBin -----------------------------
(* Windows $Recycle.Bin metadata ($I) file: a header and the original       *)
(* filename, terminated (format 1) or counted (format 2).                   *)
EXTENDS Text
CONSTANT Src(_)
VARIABLES sc, st, ev
vars == <<sc, st, ev>>
F == Src(sc)

InitSt == st = [pc |-> "header"] /\ ev = <<>>
Fail == st' = [st EXCEPT !.pc = "fail"] /\ ev' = <<>>

Version == LEi(F, 0, 8)
HeaderTable == << Field("Format version", 0, 8, "dec"), Field("Original file size", 8, 8, "dec"),
                  Field("Deletion time", 16, 8, "filetime") >>
ReadHeader ==
  /\ st.pc = "header"
  /\ IF ~Fits(F, 0, 24) THEN Fail
     ELSE /\ st' = [st EXCEPT !.pc = IF Version \in {1, 2} THEN "name" ELSE "fail"]
          /\ ev' = <<At("file header", 0)>> \o Fields(F, 0, FALSE, HeaderTable)
  /\ UNCHANGED sc

Rest(o) == IF o >= Len(F) THEN <<>> ELSE SubSeq(F, o + 1, Len(F))
Report(what, u) ==
  /\ st' = [st EXCEPT !.pc = "done"]
  /\ ev' = <<At(what, 24), Ln("Original filename", u),
             [k |-> "!file", version |-> LE(F, 0, 8), size |-> LE(F, 8, 8), time |-> LE(F, 16, 8), name |-> u]>>

ReadName1 ==
  /\ st.pc = "name" /\ Version = 1
  /\ LET n == Utf16Nul(Rest(24))
         u == Utf16(Sub(F, 24, n))
     IN IF n < 0 \/ ~u[1] THEN Fail ELSE Report("UTF-16 little-endian string", u[2])
  /\ UNCHANGED sc

ReadName2 ==
  /\ st.pc = "name" /\ Version = 2
  /\ LET n == LEi(F, 24, 4)
         u == Utf16(Sub(F, 28, 2 * n))
     IN IF ~Fits(F, 24, 4) \/ n >= Len(F) \/ ~Fits(F, 28, 2 * n) \/ ~u[1] THEN Fail
        ELSE Report("UTF-16 little-endian string with size", RStrip0(u[2]))
  /\ UNCHANGED sc

Next == ReadHeader \/ ReadName1 \/ ReadName2
Done == st.pc \in {"done", "fail"}
Outcomes == IF st.pc = "done" THEN {"ok"} ELSE {"ParseError"}
-----------------------------------------------------------------------------
OnlySupported == st.pc = "done" => Version \in {1, 2}
=============================================================================
