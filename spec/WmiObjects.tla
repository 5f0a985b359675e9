------------------------------ MODULE WmiObjects ------------------------------
(* Reading the object records of a WMI repository: the class definitions     *)
(* (from the base class on), the instances of the last of them and           *)
(* registrations.                                                            *)
EXTENDS WmiClass
CONSTANT Src(_)
VARIABLES sc, st, ev
vars == <<sc, st, ev>>
R == Src(sc)

InitSt == st = [pc |-> "class", i |-> 1, cs |-> <<>>, l |-> <<>>, is |-> 0] /\ ev = <<>>
Fail == st' = [st EXCEPT !.pc = "fail"] /\ ev' = <<>>
Api(k, v) == [k |-> k, v |-> v]

ReadClass ==
  /\ st.pc = "class" /\ st.i <= Len(R.classes)
  /\ LET r == ClassRecord(R.classes[st.i])
         c == Class(r.d, r.at)
     IN IF ~r.ok THEN Fail
        ELSE IF ~c.ok THEN Fail
        ELSE /\ st' = [st EXCEPT !.i = @ + 1, !.cs = Append(@, c.c)]
             /\ ev' = r.ev \o c.ev \o ClassText(c.c) \o <<Api("!class", [super |-> r.super, abstract |-> IsAbstract(c.c), c |-> c.c])>>
  /\ UNCHANGED sc
MakeLayout ==
  /\ st.pc = "class" /\ st.i > Len(R.classes)
  /\ IF st.cs = <<>> THEN st' = [st EXCEPT !.pc = "registration", !.i = 1] /\ ev' = <<>>
     ELSE LET l == Layout(st.cs)
          IN IF ~l.ok THEN Fail
             ELSE /\ st' = [st EXCEPT !.pc = "instance", !.i = 1, !.l = <<l>>]
                  /\ ev' = <<Api("!layout", l)>>
  /\ UNCHANGED sc
ReadInstance ==
  /\ st.pc = "instance" /\ st.i <= Len(R.instances)
  /\ LET r == InstanceRecord(R.instances[st.i], R.v1)
         i == Instance(r.d, st.l[1])
     IN IF ~r.ok THEN Fail
        ELSE IF ~i.ok THEN Fail
        ELSE /\ st' = [st EXCEPT !.i = @ + 1, !.is = @ + 1]
             /\ ev' = r.ev \o i.ev \o InstanceText(i, <<>>, <<>>) \o [k \in 1..Len(i.ps) |-> Ln("    Property: " \o StrOf(i.ps[k].n), Shown(i.ps[k].v))]
                      \o <<Api("!instance", [hash |-> r.hash, name |-> i.name, ps |-> i.ps])>>
  /\ UNCHANGED sc
EndInstances == st.pc = "instance" /\ st.i > Len(R.instances) /\ st' = [st EXCEPT !.pc = "registration", !.i = 1] /\ ev' = <<>> /\ UNCHANGED sc
ReadRegistration ==
  /\ st.pc = "registration" /\ st.i <= Len(R.registrations)
  /\ LET r == RegistrationRecord(R.registrations[st.i])
     IN IF ~r.ok THEN Fail
        ELSE st' = [st EXCEPT !.i = @ + 1] /\ ev' = r.ev
  /\ UNCHANGED sc
Finish == st.pc = "registration" /\ st.i > Len(R.registrations) /\ st' = [st EXCEPT !.pc = "done"] /\ ev' = <<>> /\ UNCHANGED sc
Next == ReadClass \/ MakeLayout \/ ReadInstance \/ EndInstances \/ ReadRegistration \/ Finish
Done == st.pc \in {"done", "fail"}
Outcomes == IF st.pc = "done" THEN {"ok"} ELSE {"ParseError"}
-----------------------------------------------------------------------------
(* the layout has every property once, and one for each property of the      *)
(* classes that has a type                                                   *)
LayoutDistinct == st.l # <<>> => \A i, j \in 1..Len(st.l[1].ps) : st.l[1].ps[i].key = st.l[1].ps[j].key => i = j
LayoutCovers == st.l # <<>> => \A i \in 1..Len(st.cs) : \A j \in 1..Len(st.cs[i].ps) : \E k \in 1..Len(st.l[1].ps) : st.l[1].ps[k].key = Lower(st.cs[i].ps[j].n)
(* no value is outside the values of the instance                            *)
Lineage == st.l # <<>> => Len(st.l[1].derivation) = Len(st.cs) - 1 /\ st.l[1].name = st.cs[Len(st.cs)].name
=============================================================================
