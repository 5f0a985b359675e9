-------------------------------- MODULE Info2 --------------------------------
(* Windows Recycler INFO2 file: a header and entries of 280 or 800 bytes.   *)
EXTENDS Text
CONSTANT Src(_)
VARIABLES sc, st, ev
vars == <<sc, st, ev>>
F == Src(sc)

InitSt == st = [pc |-> "header", off |-> 0] /\ ev = <<>>
Fail == st' = [st EXCEPT !.pc = "fail"] /\ ev' = <<>>

ESize == LEi(F, 12, 4)
HeaderTable == << Field("Unknown1", 0, 4, "hex8"), Field("Number of file entries", 4, 4, "dec"),
                  Field("Unknown2", 8, 4, "hex8"), Field("File entry size", 12, 4, "dec"),
                  Field("Unknown3", 16, 4, "hex8") >>
EntryTable == << Field("Index", 260, 4, "dec"), Field("Drive number", 264, 4, "dec"),
                 Field("Deletion time", 268, 8, "filetime"), Field("Original file size", 276, 4, "dec") >>

(* code page 1252 *)
High == <<8364, 0, 8218, 402, 8222, 8230, 8224, 8225, 710, 8240, 352, 8249, 338, 0, 381, 0,
          0, 8216, 8217, 8220, 8221, 8226, 8211, 8212, 732, 8482, 353, 8250, 339, 0, 382, 376>>
Ansi(c) == IF c >= 128 /\ c < 160 THEN High[c - 127] ELSE c
Decodes(s) == \A i \in 1..Len(s) : s[i] \notin {129, 141, 143, 144, 157}

ReadHeader ==
  /\ st.pc = "header"
  /\ IF ~Fits(F, 0, 20) THEN Fail
     ELSE /\ st' = [st EXCEPT !.pc = IF ESize \in {280, 800} THEN "entries" ELSE "fail", !.off = 20]
          /\ ev' = <<At("file header", 0)>> \o Fields(F, 0, FALSE, HeaderTable)
  /\ UNCHANGED sc

(* entries follow each other up to the end of the file, whatever their      *)
(* number in the header                                                     *)
ReadEntry ==
  /\ st.pc = "entries" /\ st.off < Len(F)
  /\ LET name == Sub(F, st.off, 260)
         wide == Sub(F, st.off + 280, 520)
         n == Utf16Nul(wide)
         u == Utf16(IF n >= 0 THEN SubSeq(wide, 1, n) ELSE wide)
     IN IF ~Fits(F, st.off, ESize) \/ ~Decodes(name) \/ (ESize = 800 /\ ~u[1]) THEN Fail
        ELSE /\ st' = [st EXCEPT !.off = @ + ESize]
             /\ ev' = <<Ln("Original filename (ANSI)", [i \in 1..260 |-> Ansi(name[i])])>>
                      \o Fields(F, st.off, FALSE, EntryTable)
                      \o (IF ESize = 800 THEN <<Ln("Original filename (Unicode)", u[2])>> ELSE <<>>)
  /\ UNCHANGED sc

Finish ==
  /\ st.pc = "entries" /\ st.off >= Len(F)
  /\ st' = [st EXCEPT !.pc = "done"] /\ ev' = <<>>
  /\ UNCHANGED sc

Next == ReadHeader \/ ReadEntry \/ Finish
Done == st.pc \in {"done", "fail"}
Outcomes == IF st.pc = "done" THEN {"ok"} ELSE {"ParseError"}
-----------------------------------------------------------------------------
(* a file read to its end consists of whole entries                         *)
WholeEntries == st.pc = "done" => (Len(F) - 20) % ESize = 0 /\ st.off = Len(F)
=============================================================================
