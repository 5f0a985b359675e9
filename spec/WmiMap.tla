-------------------------------- MODULE WmiMap --------------------------------
(* Reading a mapping file of a WMI repository, or the pages of its index     *)
(* binary tree: a report shows every page when the file is opened.           *)
EXTENDS WmiIndex
CONSTANT Src(_)
VARIABLES sc, st, ev
vars == <<sc, st, ev>>
R == Src(sc)

InitSt == st = [pc |-> "open", i |-> 1, ok |-> {}, got |-> <<>>] /\ ev = <<>>
Fail == st' = [st EXCEPT !.pc = "fail"] /\ ev' = <<>>

ReadMap ==
  /\ st.pc = "open" /\ R.kind = "map"
  /\ LET m == Map(R.data)
     IN IF ~m.ok THEN Fail
        ELSE /\ st' = [st EXCEPT !.pc = "done", !.got = <<m.index, m.objects>>]
             /\ ev' = m.ev \o <<[k |-> "!map", v |-> [version |-> m.v, seq |-> m.seq,
                                                        index |-> [i \in 1..Len(R.get) |-> Resolve(m.index, R.get[i])],
                                                        objects |-> [i \in 1..Len(R.get) |-> Resolve(m.objects, R.get[i])]]]>>
  /\ UNCHANGED sc
OpenIndex ==
  /\ st.pc = "open" /\ R.kind = "index"
  /\ IF ~R.debug \/ st.i > PageCount(R) THEN st' = [st EXCEPT !.pc = "get", !.i = 1] /\ ev' = <<>>
     ELSE LET p == IndexPage(PageData(R, st.i), st.i - 1)
          IN IF ~p.ok THEN Fail ELSE st' = [st EXCEPT !.i = @ + 1, !.ok = @ \cup {st.i}] /\ ev' = p.ev
  /\ UNCHANGED sc
GetPage ==
  /\ st.pc = "get" /\ st.i <= Len(R.get)
  /\ LET n == R.get[st.i]
         p == IndexPage(PageData(R, Sat(n) + 1), Sat(n))
     IN IF ~HasPage(R, n) THEN st' = [st EXCEPT !.i = @ + 1, !.got = Append(@, 0)] /\ ev' = <<[k |-> "!nopage", v |-> n]>>
        ELSE IF ~p.ok THEN Fail
        ELSE /\ st' = [st EXCEPT !.i = @ + 1, !.got = Append(@, 1)]
             /\ ev' = p.ev \o <<[k |-> "!page", v |-> [type |-> p.type, root |-> p.root, n |-> p.n, subs |-> p.subs, keys |-> p.keys]]>>
  /\ UNCHANGED sc
Finish == st.pc = "get" /\ st.i > Len(R.get) /\ st' = [st EXCEPT !.pc = "done"] /\ ev' = <<>> /\ UNCHANGED sc
Next == ReadMap \/ OpenIndex \/ GetPage \/ Finish
Done == st.pc \in {"done", "fail"}
Outcomes == IF st.pc = "done" THEN {"ok"} ELSE {"ParseError"}
-----------------------------------------------------------------------------
(* what was read when the file was opened can be read again                  *)
AgainOk == (R.kind = "index" /\ st.pc = "fail" /\ R.debug /\ st.i > PageCount(R)) => \E i \in 1..PageCount(R) : i \notin st.ok
(* a key has a text for each of its segments                                 *)
Separated == \A i \in 1..Len(ev) : ev[i].k = "!page" => \A j \in 1..Len(ev[i].v.keys) : ev[i].v.keys[j][1] = 92
=============================================================================
