-------------------------------- MODULE Utmp ---------------------------------
(* utmp (Linux libc6) and utmpx (Mac OS X 10.5): fixed size entries up to   *)
(* the end of the file; the first utmpx entry is the signature.             *)
EXTENDS Text
CONSTANT Src(_), Kind(_)
VARIABLES sc, st, ev
vars == <<sc, st, ev>>
F == Src(sc)
Linux == Kind(sc) = "linux"
ESize == IF Linux THEN 384 ELSE 628

InitSt == st = [pc |-> "entries", off |-> 0] /\ ev = <<>>
Fail == st' = [st EXCEPT !.pc = "fail"] /\ ev' = <<>>

LoginL == <<"EMPTY", "RUN_LVL", "BOOT_TIME", "NEW_TIME", "OLD_TIME", "INIT_PROCESS", "LOGIN_PROCESS", "USER_PROCESS", "DEAD_PROCESS", "ACCOUNTING">>
LoginM == <<"EMPTY", "RUN_LVL", "BOOT_TIME", "OLD_TIME", "NEW_TIME", "INIT_PROCESS", "LOGIN_PROCESS", "USER_PROCESS", "DEAD_PROCESS", "ACCOUNTING", "SIGNATURE", "SHUTDOWN_TIME">>
LoginName(t, v) == IF v >= 0 /\ v < Len(t) THEN t[v + 1] ELSE "UNKNOWN"
LoginText(full, w, t) == LET s == TwosC(full) IN
  HexS(s, w) \o <<32, 40>> \o Lit(IF s[1] = 1 THEN "UNKNOWN" ELSE LoginName(t, Sat(Tail(s)))) \o <<41>>

(* a string field: its bytes without NULs                                   *)
IsSet(c) == c # 0
Str(o, n) == LET u == Utf8(SelectSeq(Sub(F, st.off + o, n), IsSet)) IN IF u[1] THEN u[2] ELSE Lit("INVALID")
Val(o, n, f) == Render(f, Sub(F, st.off + o, n), FALSE)

RECURSIVE Dots(_)
Dots(a) == IF Len(a) = 1 THEN DecI(a[1]) ELSE DecI(a[1]) \o <<46>> \o Dots(Tail(a))
RECURSIVE Groups(_)
Groups(a) == LET g == HexRaw(<<a[2], a[1]>>, 4) IN IF Len(a) = 2 THEN g ELSE g \o <<58>> \o Groups(Tail(Tail(a)))
IpText(a) == IF AllZero(SubSeq(a, 5, 16)) THEN Dots(SubSeq(a, 1, 4)) ELSE Groups(a)

LinuxEv ==
  <<At("entry", st.off), Ln("Type of login", LoginText(Sub(F, st.off, 4), 8, LoginL)), Ln("PID", Val(4, 4, "dec")),
    Ln("Terminal", Str(8, 32)), Ln("Terminal ID", Val(40, 4, "dec")), Ln("Username", Str(44, 32)), Ln("Hostname", Str(76, 256)),
    Ln("Termination status", Val(332, 2, "shex4")), Ln("Exit status", Val(334, 2, "shex4")), Ln("Session", Val(336, 4, "sdec")),
    Ln("Timestamp", Val(340, 4, "sposix")), Ln("Microseconds", Val(344, 4, "sdec")),
    Ln("IP address", IpText(Sub(F, st.off + 348, 16))), Hexd("Unknown1", Sub(F, st.off + 364, 20))>>
MacEv ==
  <<At("entry", st.off), Ln("Username", Str(0, 256)), Ln("Terminal ID", Val(256, 4, "dec")), Ln("Terminal", Str(260, 32)),
    Ln("PID", Val(292, 4, "dec")), Ln("Type of login", LoginText(Sub(F, st.off + 296, 2), 4, LoginM)), Ln("Unknown1", Val(298, 2, "shex4")),
    Ln("Timestamp", Val(300, 4, "sposix")), Ln("Microseconds", Val(304, 4, "sdec")), Ln("Hostname", Str(308, 256)),
    Hexd("Unknown2", Sub(F, st.off + 564, 64))>>

SIGN == <<117, 116, 109, 112, 120, 45, 49, 46, 48, 48, 0>>   \* utmpx-1.00
Signed(o) == Sub(F, o, 11) = SIGN /\ LEi(F, o + 296, 2) = 10

ReadEntry ==
  /\ st.pc = "entries" /\ (st.off < Len(F) \/ (~Linux /\ st.off = 0))
  /\ IF ~Fits(F, st.off, ESize) THEN Fail
     ELSE /\ st' = [st EXCEPT !.off = @ + ESize, !.pc = IF ~Linux /\ st.off = 0 /\ ~Signed(0) THEN "fail" ELSE @]
          /\ ev' = IF Linux THEN LinuxEv ELSE MacEv
  /\ UNCHANGED sc

Finish ==
  /\ st.pc = "entries" /\ st.off >= Len(F) /\ (Linux \/ st.off > 0)
  /\ st' = [st EXCEPT !.pc = "done"] /\ ev' = <<>>
  /\ UNCHANGED sc

Next == ReadEntry \/ Finish
Done == st.pc \in {"done", "fail"}
Outcomes == IF st.pc = "done" THEN {"ok"} ELSE {"ParseError"}
-----------------------------------------------------------------------------
WholeEntries == st.pc = "done" => Len(F) % ESize = 0 /\ st.off = Len(F)
NeedsSignature == st.pc = "done" => Linux \/ Signed(0)
=============================================================================
