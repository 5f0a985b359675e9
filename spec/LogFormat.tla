------------------------------ MODULE LogFormat ------------------------------
(* The composition of a log message: the literal text of the format string,  *)
(* with each operator replaced by its value as its decoder renders it.       *)
(* A source is a format string (code points) and the values (byte strings).  *)
EXTENDS ULFormat
CONSTANT Src(_)
VARIABLES sc, st, ev
vars == <<sc, st, ev>>
S == Src(sc)

InitSt == st = [pc |-> "scan", pos |-> 1, n |-> 0, msg |-> <<>>] /\ ev = <<>>
Emit(events, next) == ev' = events /\ st' = next /\ UNCHANGED sc

(* literal text up to the next %                                             *)
Literal ==
  /\ st.pc = "scan" /\ st.pos <= Len(S.fmt)
  /\ S.fmt[st.pos] # 37
  /\ LET i == FindFrom(S.fmt, st.pos, 37)
         e == IF i = 0 THEN Len(S.fmt) + 1 ELSE i
     IN Emit(<<>>, [st EXCEPT !.pos = e, !.msg = @ \o SubSeq(S.fmt, st.pos, e - 1)])

AtPercent == st.pc = "scan" /\ st.pos <= Len(S.fmt) /\ S.fmt[st.pos] = 37
Found == OperatorAt(S.fmt, st.pos)
(* %% is a %, and a % that starts no operator stands for itself              *)
Percent ==
  /\ AtPercent /\ ~Found.ok
  /\ LET two == st.pos < Len(S.fmt) /\ S.fmt[st.pos + 1] = 37
     IN Emit(<<>>, [st EXCEPT !.pos = @ + (IF two THEN 2 ELSE 1), !.msg = Append(@, 37)])

(* an operator takes the next item                                           *)
Operator ==
  /\ AtPercent /\ Found.ok
  /\ LET names == DecoderNames(Found)
         has == st.n < Len(S.items)
         r == IF has THEN DecodeBy(names, S.items[st.n + 1], Found) ELSE Txt(Lit("<decode: missing data>"))
         first == <<[k |-> "!decoders", v |-> JoinOn(names, <<44>>)]>>
     IN IF ~r.ok THEN Emit(first, [st EXCEPT !.pc = "fail"])
        ELSE Emit(IF has THEN first \o <<[k |-> "!value", v |-> r.t]>> ELSE first,
                  [st EXCEPT !.pos = Found.next, !.n = @ + 1, !.msg = @ \o r.t])

Finish ==
  /\ st.pc = "scan" /\ st.pos > Len(S.fmt)
  /\ Emit(<<[k |-> "!message", v |-> st.msg]>>, [st EXCEPT !.pc = "ok"])

Next == Literal \/ Percent \/ Operator \/ Finish
Done == st.pc \in {"ok", "fail"}
Outcomes == IF st.pc = "ok" THEN {"ok"} ELSE {"ParseError"}
-----------------------------------------------------------------------------
(* a message without operators is its format string with %% as %             *)
LiteralKept == (st.pc = "ok" /\ IndexOfVal(S.fmt, 37) = 0) => st.msg = S.fmt
(* the values are used in order, each at most once                           *)
InOrder == st.n <= Len(S.fmt)
=============================================================================
