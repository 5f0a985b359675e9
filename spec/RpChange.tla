------------------------------ MODULE RpChange -------------------------------
(* Windows Restore Point change.log file: a header record holding the       *)
(* volume path record, then change log entry records.  Every record repeats *)
(* its size in its last 4 bytes; an entry holds the process name and sub    *)
(* records.                                                                 *)
EXTENDS Text
CONSTANT Src(_)
VARIABLES sc, st, ev
vars == <<sc, st, ev>>
F == Src(sc)

InitSt == st = [pc |-> "header", pos |-> 0, base |-> 0, end |-> 0, entry |-> 0, list |-> <<>>, vol |-> <<>>] /\ ev = <<>>
FailWith(e) == st' = [st EXCEPT !.pc = "fail"] /\ ev' = e
Fail == FailWith(<<>>)

RecordSig == <<18, 239, 205, 171>>
Names == <<"RecordTypeLogHeader", "RecordTypeLogEntry", "RecordTypeVolumePath", "RecordTypeFirstPath", "RecordTypeSecondPath",
           "RecordTypeTempPath", "RecordTypeAclInline", "RecordTypeAclFile", "RecordTypeDebugInfo", "RecordTypeShortName">>
Paren(s) == <<32, 40>> \o Lit(s) \o <<41>>
U4(o) == LEi(F, o, 4)
HeadEv(o) == <<Ln("Record size", Dec(LE(F, o, 4))),
               Ln("Record type", Dec(LE(F, o + 4, 4)) \o Paren(IF U4(o + 4) < 10 THEN Names[U4(o + 4) + 1] ELSE "UNKNOWN"))>>

(* the names of the bits that are set: bits is a sequence of <<byte, value, name>> *)
TypeBits == <<<<0, 1, "STREAMCHANGE">>, <<0, 2, "ACLCHANGE">>, <<0, 4, "ATTRCHANGE">>, <<0, 8, "STREAMOVERWRITE">>, <<0, 16, "FILEDELETE">>,
              <<0, 32, "FILECREATE">>, <<0, 64, "FILERENAME">>, <<0, 128, "DIRCREATE">>, <<1, 1, "DIRRENAME">>, <<1, 2, "DIRDELETE">>,
              <<1, 4, "MOUNTCREATE">>, <<1, 8, "MOUNTDELETE">>, <<1, 16, "VOLUMEERROR">>, <<1, 32, "STREAMCREATE">>, <<2, 1, "NOOPTIMIZE">>,
              <<2, 2, "ISDIR">>, <<2, 4, "ISNOTDIR">>, <<2, 8, "SIMULATEDELETE">>, <<2, 16, "INPRECREATE">>, <<2, 32, "OPENBYID">>>>
FlagBits == <<<<0, 1, "TEMPPATH">>, <<0, 2, "SECONDPATH">>, <<0, 4, "ACLINFO">>, <<0, 8, "DEBUGINFO">>, <<0, 16, "SHORTNAME">>>>
BitEv(o, bits, prefix) ==
  LET hit(b) == (F[o + b[1] + 1] \div b[2]) % 2 = 1
      set == SelectSeq(bits, hit)
  IN [i \in 1..Len(set) |-> [k |-> "text", v |-> <<9>> \o Lit(prefix) \o Lit(set[i][3])]]

(* ------------------------------------------------------------- header --- *)
ReadHeader ==
  /\ st.pc = "header"
  /\ IF ~Fits(F, 0, 16) THEN Fail
     ELSE LET e == <<At("file header", 0)>> \o HeadEv(0)
                   \o <<Ln("Signature", Hex(LE(F, 8, 4), 8)), Ln("Format version", Dec(LE(F, 12, 4)))>>
              n == U4(0) - 16
          IN IF Sub(F, 8, 4) # RecordSig \/ U4(4) # 0 \/ U4(12) # 2 \/ ~Fits(F, 16, n) THEN FailWith(e)
             ELSE st' = [st EXCEPT !.pc = "volume", !.pos = 16, !.end = 16 + n] /\ ev' = e \o <<Hexd("Record data", Sub(F, 16, n))>>
  /\ UNCHANGED sc

ReadVolume ==
  /\ st.pc = "volume"
  /\ LET n == U4(16) - 8
         u == Utf16(Sub(F, 24, n))
         path == IF Len(u[2]) = 0 THEN <<>> ELSE SubSeq(u[2], 1, Len(u[2]) - 1)
         e == HeadEv(16) \o <<Ln("Volume path", path)>>
         copy == Ln("Copy of record size", Dec(LE(F, st.end - 4, 4)))
     IN IF st.end - 4 < 24 \/ n < 0 \/ 24 + n > st.end - 4 \/ ~u[1] THEN Fail
        ELSE IF U4(20) # 2 THEN FailWith(e)
        ELSE IF Sub(F, st.end - 4, 4) # Sub(F, 0, 4) THEN FailWith(e \o <<copy>>)
        ELSE st' = [st EXCEPT !.pc = "entry", !.pos = st.end, !.vol = path] /\ ev' = e \o <<copy>>
  /\ UNCHANGED sc

(* -------------------------------------------------------------- entry --- *)
EntryEv(o) ==
  <<At("change log entry record", o)>> \o HeadEv(o)
  \o <<Ln("Signature", Hex(LE(F, o + 8, 4), 8)), Ln("Entry type", Hex(LE(F, o + 12, 4), 8))>> \o BitEv(o + 12, TypeBits, "CHANGE_LOG_ENTRYTYPES_")
  \o <<Ln("Entry flags", Hex(LE(F, o + 16, 4), 8))>> \o BitEv(o + 16, FlagBits, "CHANGE_LOG_ENTRYFLAGS_")
  \o <<Ln("File attribute flags", Hex(LE(F, o + 20, 4), 8)), Ln("Sequence number", Dec(LE(F, o + 24, 8))),
       Ln("Process name size", Dec(LE(F, o + 64, 4))), Ln("Unknown2", Hex(LE(F, o + 68, 4), 8))>>

ReadEntry ==
  /\ st.pc = "entry" /\ st.pos < Len(F)
  /\ LET o == st.pos
         n == U4(o) - 72
     IN IF ~Fits(F, o, 72) THEN Fail
        ELSE IF U4(o + 4) # 1 \/ Sub(F, o + 8, 4) # RecordSig \/ ~Fits(F, o + 72, n) THEN FailWith(EntryEv(o))
        ELSE LET raw == Sub(F, o + 72, n)
                 e == EntryEv(o) \o <<Hexd("Record data", raw)>>
                 z == Utf16Nul(raw)
                 u == Utf16(Sub(raw, 0, z))
             IN IF z < 0 \/ ~u[1] THEN FailWith(e)
                ELSE /\ ev' = e \o <<Ln("Process name", u[2]), Ln("Sub record data offset", DecI(z + 2)),
                                    Ln("Sub record data size", DecI(n - 4 - (z + 2)))>>
                     /\ st' = [st EXCEPT !.pc = "sub", !.base = o + 72, !.end = o + 72 + n, !.pos = o + 72 + z + 2, !.entry = o,
                                         !.list = Append(@, [k |-> "!entry", t |-> LE(F, o + 12, 4), f |-> LE(F, o + 16, 4), a |-> LE(F, o + 20, 4),
                                                             n |-> LE(F, o + 24, 8), p |-> u[2]])]
  /\ UNCHANGED sc

Text459(t) == CASE t = 4 -> "Secondary path" [] t = 5 -> "Backup filename" [] OTHER -> "Short filename"
InSub == st.pc = "sub" /\ st.pos < st.end - 4
ReadSub ==
  /\ InSub
  /\ LET o == st.pos
         m == U4(o)
         t == U4(o + 4)
         e == <<Hexd("Record data", Sub(F, o, MinOf(m, st.end - o)))>> \o HeadEv(o)
         tail == Sub(F, o + 8, st.end - (o + 8))
         z == Utf16Nul(tail)
         u == Utf16(Sub(tail, 0, z))
         go(x) == ev' = x /\ st' = IF m = 0 THEN [st EXCEPT !.pc = "copy"] ELSE [st EXCEPT !.pos = MinOf(o + m, st.end)]
     IN IF o + 8 > st.end THEN Fail
        ELSE IF t \notin {4, 5, 9} THEN go(e)
        ELSE IF z < 0 \/ ~u[1] THEN FailWith(e)
        ELSE go(e \o <<Ln(Text459(t), u[2])>>)
  /\ UNCHANGED sc

EndSub == st.pc = "sub" /\ ~InSub /\ st' = [st EXCEPT !.pc = "copy"] /\ ev' = <<>> /\ UNCHANGED sc
ReadCopy ==
  /\ st.pc = "copy"
  /\ IF st.end - st.base < 4 \/ Sub(F, st.end - 4, 4) # Sub(F, st.entry, 4) THEN Fail
     ELSE st' = [st EXCEPT !.pc = "entry", !.pos = st.end] /\ ev' = <<Ln("Copy of record size", Dec(LE(F, st.end - 4, 4)))>>
  /\ UNCHANGED sc
Finish ==
  /\ st.pc = "entry" /\ st.pos >= Len(F)
  /\ st' = [st EXCEPT !.pc = "done"]
  /\ ev' = <<[k |-> "!volume", v |-> st.vol]>> \o st.list
  /\ UNCHANGED sc

Next == ReadHeader \/ ReadVolume \/ ReadEntry \/ ReadSub \/ EndSub \/ ReadCopy \/ Finish
Done == st.pc \in {"done", "fail"}
Outcomes == IF st.pc = "done" THEN {"ok"} ELSE {"ParseError"}
-----------------------------------------------------------------------------
WholeFile == st.pc = "done" => st.pos = Len(F)
Forward == [][st'.pos >= st.pos]_vars
InRecord == st.pc = "sub" => st.pos <= st.end /\ st.end <= Len(F)
=============================================================================
