--------------------------------- MODULE Job ---------------------------------
(* Windows Task Scheduler job file: a fixed-length section of 68 bytes and a *)
(* variable-length section of strings, data and triggers.                   *)
EXTENDS Text
CONSTANT Src(_)
VARIABLES sc, st, ev
vars == <<sc, st, ev>>
F == Src(sc)

InitSt == st = [pc |-> "fixed"] /\ ev = <<>>
Fail == st' = [st EXCEPT !.pc = "fail"] /\ ev' = <<>>

V(o, n) == LEi(F, o, n)
Pad4(o) == ZeroPadOver(LEi(F, o, 2), 4)
Minutes(b) == Dec(b) \o Lit(" minutes")
Version == Hex(LE(F, 0, 2), 4) \o <<32, 40>> \o DecI(F[2]) \o <<46>> \o DecI(F[1]) \o <<41>>
P2(o) == ZeroPadOver(V(o, 2), 2)
SystemTime(o) == ZeroPadOver(V(o, 2), 4) \o <<45>> \o P2(o + 2) \o <<45>> \o P2(o + 6) \o <<32>> \o P2(o + 8) \o <<58>> \o P2(o + 10)
                 \o <<58>> \o P2(o + 12) \o <<46>> \o ZeroPadOver(V(o + 14, 2), 3)
FixedEv ==
  <<At("fixed-length data section", 0), Ln("Product version", Version), Ln("Format version", Dec(LE(F, 2, 2))),
    Ln("Job identifier", UuidLE(Sub(F, 4, 16))), Ln("Application name offset", Hex(LE(F, 20, 2), 4)),
    Ln("Triggers offset", Hex(LE(F, 22, 2), 4)), Ln("Error retry count", Dec(LE(F, 24, 2))),
    Ln("Error retry interval", Minutes(LE(F, 26, 2))), Ln("Idle deadline", Minutes(LE(F, 28, 2))), Ln("Idle wait", Minutes(LE(F, 30, 2))),
    Ln("Priority", Hex(LE(F, 32, 4), 8)), Ln("Maximum run time", Dec(LE(F, 36, 4)) \o Lit(" milliseconds")),
    Ln("Exit code", Hex(LE(F, 40, 4), 8)), Ln("Status", Hex(LE(F, 44, 4), 8)), Ln("Flags", Hex(LE(F, 48, 4), 8)),
    Ln("Last run time", SystemTime(52))>>

ReadFixed ==
  /\ st.pc = "fixed"
  /\ IF ~Fits(F, 0, 68) THEN Fail ELSE st' = [st EXCEPT !.pc = "variable"] /\ ev' = FixedEv
  /\ UNCHANGED sc

(* A counted UTF-16 string: [ok, n characters, text up to its first NUL,    *)
(* end]                                                                     *)
JString(o) ==
  LET n == V(o, 2)
      raw == Sub(F, o + 2, 2 * n)
      z == Utf16Nul(raw)
      u == Utf16(IF z >= 0 THEN SubSeq(raw, 1, z) ELSE raw)
  IN IF ~Fits(F, o, 2) \/ ~Fits(F, o + 2, 2 * n) \/ ~u[1] THEN [ok |-> FALSE, end |-> BIG, n |-> 0, t |-> <<>>]
     ELSE [ok |-> TRUE, n |-> n, t |-> u[2], end |-> o + 2 + 2 * n]
RECURSIVE Strings(_, _)
Strings(o, k) == IF k = 0 THEN <<>> ELSE LET s == JString(o) IN IF ~s.ok THEN <<s>> ELSE <<s>> \o Strings(s.end, k - 1)
StrLn(l, s) == Ln(l, <<40>> \o DecI(2 * s.n) \o Lit(" bytes) ") \o s.t)

DateOf(o) == ZeroPadOver(V(o, 2), 4) \o <<45>> \o P2(o + 2) \o <<45>> \o P2(o + 4)
TriggerEv(o) ==
  <<Ln("Size", Dec(LE(F, o, 2))), Ln("Reserved1", Hex(LE(F, o + 2, 2), 4)), Ln("Start date", DateOf(o + 4)), Ln("End date", DateOf(o + 10)),
    Ln("Start time", P2(o + 16) \o <<58>> \o P2(o + 18)), Ln("Duration", Minutes(LE(F, o + 20, 4))), Ln("Interval", Minutes(LE(F, o + 24, 4))),
    Ln("Trigger flags", Hex(LE(F, o + 28, 4), 8)), Ln("Trigger type", Hex(LE(F, o + 32, 4), 8)), Ln("Trigger arg0", Hex(LE(F, o + 36, 2), 4)),
    Ln("Trigger arg1", Hex(LE(F, o + 38, 2), 4)), Ln("Trigger arg2", Hex(LE(F, o + 40, 2), 4)), Ln("Trigger padding", Hex(LE(F, o + 42, 2), 4)),
    Ln("Trigger reserved2", Hex(LE(F, o + 44, 2), 4)), Ln("Trigger reserved3", Hex(LE(F, o + 46, 2), 4))>>

ReadVariable ==
  /\ st.pc = "variable"
  /\ LET ss == Strings(70, 5)
         good == Len(ss) = 5 /\ ss[5].ok
         ud == ss[5].end
         un == V(ud, 2)
         rd == ud + 2 + un
         rn == V(rd, 2)
         tr == rd + 2 + rn
         tn == V(tr, 2)
     IN IF ~Fits(F, 68, 2) \/ ~good \/ ~Fits(F, ud, 2) \/ ~Fits(F, ud + 2, un) \/ ~Fits(F, rd, 2) \/ ~Fits(F, rd + 2, rn)
           \/ ~Fits(F, tr, 2) \/ ~Fits(F, tr + 2, 48 * tn) THEN Fail
        ELSE /\ st' = [st EXCEPT !.pc = "done"]
             /\ ev' = <<At("variable-length data section", 68), Ln("Running instance count", Dec(LE(F, 68, 2))),
                        StrLn("Application name", ss[1]), StrLn("Parameters", ss[2]), StrLn("Working directory", ss[3]),
                        StrLn("Author", ss[4]), StrLn("Comment", ss[5]), Hexd("User data", Sub(F, ud + 2, un)), Hexd("Reserved data", Sub(F, rd + 2, rn))>>
                      \o FlatSeq([i \in 1..tn |-> TriggerEv(tr + 2 + 48 * (i - 1))])
                      \o <<[k |-> "!task", app |-> ss[1].t, par |-> ss[2].t, dir |-> ss[3].t, author |-> ss[4].t, comment |-> ss[5].t,
                            retry |-> LE(F, 24, 2), interval |-> LE(F, 26, 2), priority |-> LE(F, 32, 4), id |-> UuidLE(Sub(F, 4, 16))]>>
  /\ UNCHANGED sc

Next == ReadFixed \/ ReadVariable
Done == st.pc \in {"done", "fail"}
Outcomes == IF st.pc = "done" THEN {"ok"} ELSE {"ParseError"}
-----------------------------------------------------------------------------
HasSections == st.pc = "done" => Len(F) >= 68 + 2 + 10 + 6
=============================================================================
