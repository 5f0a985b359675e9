-------------------------------- MODULE Core --------------------------------
(* Reading one structure at an offset of a file.  A structure is a sequence *)
(* of members: fixed integers of either byte order, streams and arrays whose*)
(* length is an earlier member, and NUL-terminated strings.  Reading decodes*)
(* the members from consecutive bytes starting exactly at the requested     *)
(* offset, consumes exactly the bytes of the structure, or fails as a whole;*)
(* there is no partial structure.                                           *)
EXTENDS Bytes

CONSTANT Src(_)   \* [data, off, op : {"struct","data","stream"}, size, type]

VARIABLES sc, st, ev
vars == <<sc, st, ev>>
S == Src(sc)
D == S.data

InitSt == st = [pc |-> IF S.op = "data" THEN "data" ELSE "member", m |-> 1, pos |-> S.off, vals |-> <<>>] /\ ev = <<>>

Fail == st' = [st EXCEPT !.pc = "fail"] /\ ev' = <<>> /\ UNCHANGED sc

(* read a given number of bytes: all of them or none *)
ReadData ==
  /\ st.pc = "data"
  /\ IF S.off >= 0 /\ S.off < BIG /\ (S.size = 0 \/ (S.size > 0 /\ Fits(D, S.off, S.size)))
     THEN /\ st' = [st EXCEPT !.pc = "done", !.pos = S.off + S.size]
          /\ ev' = <<[k |-> "bytes", v |-> Sub(D, S.off, S.size)]>>
          /\ UNCHANGED sc
     ELSE Fail

Val(i) == Sat(st.vals[i][1])

ReadMember ==
  /\ st.pc = "member" /\ st.m <= Len(S.type)
  /\ LET t == S.type[st.m]
         Take(n, v) == /\ st' = [st EXCEPT !.m = @ + 1, !.pos = @ + n, !.vals = Append(@, v)]
                       /\ ev' = <<>> /\ UNCHANGED sc
         p == st.pos
     IN
     CASE t.t = "u" -> IF ~Fits(D, p, t.n) THEN Fail
                       ELSE Take(t.n, <<IF t.be = 1 THEN BE(D, p, t.n) ELSE LE(D, p, t.n)>>)
       [] t.t = "bytes" -> IF ~Fits(D, p, Val(t.ref)) THEN Fail
                           ELSE Take(Val(t.ref), <<Sub(D, p, Val(t.ref))>>)
       [] t.t = "arr" -> IF ~Fits(D, p, t.n * Val(t.ref)) THEN Fail
                         ELSE Take(t.n * Val(t.ref),
                                   [i \in 1..Val(t.ref) |->
                                     IF t.be = 1 THEN BE(D, p + (i - 1) * t.n, t.n)
                                     ELSE LE(D, p + (i - 1) * t.n, t.n)])
       [] OTHER -> LET z == IndexOfVal(Sub(D, p, Len(D)), 0) IN
                          IF z = 0 THEN Fail ELSE Take(z, <<Sub(D, p, z - 1)>>)

Return ==
  /\ st.pc = "member" /\ st.m > Len(S.type)
  /\ st' = [st EXCEPT !.pc = "done"]
  /\ ev' = <<[k |-> "struct", v |-> st.vals, n |-> st.pos - S.off]>>
  /\ UNCHANGED sc

Next == ReadData \/ ReadMember \/ Return
Done == st.pc \in {"done", "fail"}
Outcomes == IF st.pc = "done" THEN {"ok"} ELSE {"ParseError"}

-----------------------------------------------------------------------------
NeverPastEnd == st.pos <= MaxOf(Len(D), S.off)
AllOrNothing == ev # <<>> => st.pc = "done"
Forward == [][st'.pos >= st.pos]_vars
=============================================================================
