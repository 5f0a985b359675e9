------------------------------- MODULE Range --------------------------------
(* Windows (data ranges) on one parent file.  Every operation on a window   *)
(* behaves as the same operation on a stand-alone file that holds exactly   *)
(* the window's bytes, whatever was done to the parent or to other windows. *)
EXTENDS Bytes

CONSTANT Src(_)   \* [parent : bytes, wins : Seq([off, size]), ops : Seq(op)]

VARIABLES sc, st, ev
vars == <<sc, st, ev>>

S == Src(sc)
(* the bytes a window covers; clipped by the end of the parent *)
Window(w) == Sub(S.parent, S.wins[w].off, S.wins[w].size)
Valid(w) == S.wins[w].off >= 0 /\ S.wins[w].size >= 0

InitSt == st = [pc |-> "run", i |-> 1, cur |-> [w \in 1..Len(S.wins) |-> 0]] /\ ev = <<>>

Answer(r, v, w) == ev' = <<[k |-> r, v |-> v, at |-> st'.cur[w]]>>

(* read(n): n = -1 stands for "no size given" and -2 for a negative size;  *)
(* both mean everything that is left in the window.                        *)
Read(o) ==
  LET w == o.w
      all == Window(w)
      rest == Sub(all, st.cur[w], Len(all))
      got == IF o.n < 0 THEN rest ELSE Sub(rest, 0, o.n)
  IN IF ~Valid(w)
     THEN st' = [st EXCEPT !.i = @ + 1] /\ Answer("oserror", <<>>, w)
     ELSE st' = [st EXCEPT !.i = @ + 1, !.cur[w] = @ + Len(got)] /\ Answer("data", got, w)

Seek(o) ==
  LET w == o.w
      base == CASE o.whence = 0 -> 0
                [] o.whence = 1 -> st.cur[w]
                [] o.whence = 2 -> S.wins[w].size
                [] OTHER -> -1000
      target == base + o.n
      okay == S.wins[w].size >= 0 /\ o.whence \in 0..2 /\ target >= 0
  IN IF okay
     THEN st' = [st EXCEPT !.i = @ + 1, !.cur[w] = target] /\ Answer("seeked", <<>>, w)
     ELSE st' = [st EXCEPT !.i = @ + 1] /\ Answer("oserror", <<>>, w)

Size(o) == /\ st' = [st EXCEPT !.i = @ + 1]
           /\ Answer("size", <<S.wins[o.w].size>>, o.w)

(* someone else moves or reads the parent: no window notices *)
Parent(o) == st' = [st EXCEPT !.i = @ + 1] /\ Answer("parent", <<>>, o.w)

Do(o) == /\ CASE o.op = "read" -> Read(o)
              [] o.op = "seek" -> Seek(o)
              [] o.op = "size" -> Size(o)
              [] OTHER -> Parent(o)
         /\ UNCHANGED sc

Next == \/ st.pc = "run" /\ st.i <= Len(S.ops) /\ Do(S.ops[st.i])
        \/ st.pc = "run" /\ st.i > Len(S.ops) /\ st' = [st EXCEPT !.pc = "done"] /\ ev' = <<>> /\ UNCHANGED sc
Done == st.pc = "done"
Outcomes == {"ok"}

-----------------------------------------------------------------------------
NonNegative == \A w \in 1..Len(S.wins) : st.cur[w] >= 0
(* only bytes of the window at the position before the read are returned    *)
Contained == [][\A w \in 1..Len(S.wins) :
                  (ev' # <<>> /\ ev'[1].k = "data" /\ st'.cur[w] # st.cur[w]) =>
                    /\ ev'[1].v = Sub(S.parent, S.wins[w].off + st.cur[w], st'.cur[w] - st.cur[w])
                    /\ st'.cur[w] <= S.wins[w].size]_vars
(* an operation on one window leaves the position of every other alone      *)
Isolated == [][Cardinality({w \in 1..Len(S.wins) : st'.cur[w] # st.cur[w]}) <= 1]_vars
=============================================================================
