-------------------------------- MODULE RpLog --------------------------------
(* Windows Restore Point rp.log file: a header with a terminated UTF-16     *)
(* description, data, and a FILETIME in the last 8 bytes.                   *)
EXTENDS Text
CONSTANT Src(_)
VARIABLES sc, st, ev
vars == <<sc, st, ev>>
F == Src(sc)

InitSt == st = [pc |-> "header", pos |-> 0] /\ ev = <<>>
Fail == st' = [st EXCEPT !.pc = "fail"] /\ ev' = <<>>

Paren(s) == <<32, 40>> \o Lit(s) \o <<41>>
EventName(v) == CASE v = 100 -> "BEGIN_SYSTEM_CHANGE" [] v = 101 -> "END_SYSTEM_CHANGE"
                  [] v = 102 -> "BEGIN_NESTED_SYSTEM_CHANGE" [] v = 103 -> "END_NESTED_SYSTEM_CHANGE" [] OTHER -> "UNKNOWN"
TypeName(v) == CASE v = 0 -> "APPLICATION_INSTALL" [] v = 1 -> "APPLICATION_UNINSTALL" [] v = 10 -> "DEVICE_DRIVER_INSTALL"
                 [] v = 12 -> "MODIFY_SETTINGS" [] v = 13 -> "CANCELLED_OPERATION" [] OTHER -> "UNKNOWN"
Rest(o) == IF o >= Len(F) THEN <<>> ELSE SubSeq(F, o + 1, Len(F))

ReadHeader ==
  /\ st.pc = "header"
  /\ LET n == Utf16Nul(Rest(16))
         u == Utf16(Sub(F, 16, n))
     IN IF ~Fits(F, 0, 16) \/ n < 0 \/ ~u[1] THEN Fail
        ELSE /\ st' = [pc |-> "data", pos |-> 18 + n]
             /\ ev' = <<At("file header", 0), Ln("Event type", Hex(LE(F, 0, 4), 8) \o Paren(EventName(LEi(F, 0, 4)))),
                        Ln("Restore point type", Hex(LE(F, 4, 4), 8) \o Paren(TypeName(LEi(F, 4, 4)))),
                        Ln("Sequence number", Hex(LE(F, 8, 8), 8)), Ln("Description", u[2])>>
  /\ UNCHANGED sc
ReadData ==
  /\ st.pc = "data"
  /\ IF Len(F) - 8 < st.pos THEN Fail
     ELSE /\ st' = [st EXCEPT !.pc = "footer", !.pos = Len(F) - 8]
          /\ ev' = <<Hexd("Unknown1", Sub(F, st.pos, Len(F) - 8 - st.pos))>>
  /\ UNCHANGED sc
ReadFooter ==
  /\ st.pc = "footer"
  /\ st' = [st EXCEPT !.pc = "done", !.pos = Len(F)]
  /\ ev' = <<At("file footer", Len(F) - 8), Ln("Creation time", FiletimeText(LE(F, Len(F) - 8, 8)))>>
  /\ UNCHANGED sc

Next == ReadHeader \/ ReadData \/ ReadFooter
Done == st.pc \in {"done", "fail"}
Outcomes == IF st.pc = "done" THEN {"ok"} ELSE {"ParseError"}
-----------------------------------------------------------------------------
WholeFile == st.pc = "done" => st.pos = Len(F)
Forward == [][st'.pos >= st.pos]_vars
=============================================================================
