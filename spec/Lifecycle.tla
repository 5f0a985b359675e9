------------------------------ MODULE Lifecycle ------------------------------
(* One reader object over its life: Open and Close in any order, on files   *)
(* that are good, bad or missing.  A reader is either closed or has one     *)
(* file open; what Open of a file gives (its outcome, its report and what   *)
(* the interface returns) depends on that file only, never on the files the *)
(* object had open before or failed to open.  A reader that is given an     *)
(* open file-like object (attach) either works on it at once and forgets    *)
(* it, or keeps it until Close, which gives it up without closing it.       *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANT Src(_)   \* [files : Seq("good" | "bad" | "missing"), ops : Seq([op, f]), keeps : 0 | 1]
VARIABLES sc, st, ev
vars == <<sc, st, ev>>
S == Src(sc)

(* cur: the file that is open, 0 when none, KEPT when it keeps one it was given *)
KEPT == 99
InitSt == st = [pc |-> "run", i |-> 1, cur |-> 0] /\ ev = <<>>

(* handles: how many of the files are held open by the object afterwards;   *)
(* fresh: whether the outcome, report and results are those of an object    *)
(* that never opened anything else                                          *)
Seen(k, h, f) == <<[k |-> k, handles |-> h, fresh |-> f]>>
Held(c) == IF c \in {0, KEPT} THEN 0 ELSE 1

Open(f) ==
  IF st.cur # 0 THEN ev' = Seen("oserror", Held(st.cur), 1) /\ st' = [st EXCEPT !.i = @ + 1]
  ELSE IF S.files[f] = "good" THEN ev' = Seen("opened", 1, 1) /\ st' = [st EXCEPT !.i = @ + 1, !.cur = f]
  ELSE /\ ev' = Seen(IF S.files[f] = "bad" THEN "parseerror" ELSE "oserror", 0, 1)
       /\ st' = [st EXCEPT !.i = @ + 1]
Close ==
  IF st.cur = 0 THEN ev' = Seen("oserror", 0, 1) /\ st' = [st EXCEPT !.i = @ + 1]
  ELSE ev' = Seen("closed", 0, 1) /\ st' = [st EXCEPT !.i = @ + 1, !.cur = 0]

Attach(f) ==
  /\ ev' = Seen(IF st.cur # 0 THEN "skipped" ELSE "attached", Held(st.cur), 1)
  /\ st' = [st EXCEPT !.i = @ + 1, !.cur = IF @ = 0 /\ S.keeps = 1 THEN KEPT ELSE @]

Do(o) == /\ CASE o.op = "open" -> Open(o.f) [] o.op = "attach" -> Attach(o.f) [] OTHER -> Close
         /\ UNCHANGED sc
Next == \/ st.pc = "run" /\ st.i <= Len(S.ops) /\ Do(S.ops[st.i])
        \/ st.pc = "run" /\ st.i > Len(S.ops) /\ st' = [st EXCEPT !.pc = "done"] /\ ev' = <<>> /\ UNCHANGED sc
Done == st.pc = "done"
Outcomes == {"ok"}

-----------------------------------------------------------------------------
(* only a good file is ever open, and its handle is the only one held       *)
OnlyGood == st.cur \notin {0, KEPT} => S.files[st.cur] = "good"
HandlesMatch == ev # <<>> => ev[1].handles = Held(st.cur)
(* a refused operation changes nothing *)
RefusedKeeps == [][(ev' # <<>> /\ ev'[1].k = "oserror") => st'.cur = st.cur]_vars
(* from any state a good file can be opened after at most one Close         *)
Reusable == st.cur = 0 \/ ENABLED Close
=============================================================================
