------------------------------- MODULE CoreMC -------------------------------
EXTENDS Core, Json
CONSTANTS MaxLen, Alphabet
MCSrc(x) == x
U(n, be) == [t |-> "u", n |-> n, be |-> be, ref |-> 0]
R(t, n, ref) == [t |-> t, n |-> n, be |-> 0, ref |-> ref]
Types == {<<U(2, 0), U(1, 0)>>, <<U(1, 0), R("bytes", 1, 1), U(2, 0)>>,
          <<U(1, 0), R("arr", 2, 1), U(1, 0)>>, <<R("cstr", 0, 0), U(1, 0)>>}
Datas == UNION {[1..k -> Alphabet] : k \in 0..MaxLen}
MCInit == /\ \E d \in Datas, o \in 0..1 :
               \/ \E t \in Types : sc = [data |-> d, off |-> o, op |-> "struct", size |-> 0, type |-> t]
               \/ \E n \in 0..3 : sc = [data |-> d, off |-> o, op |-> "data", size |-> n, type |-> <<>>]
          /\ InitSt
MCSpec == MCInit /\ [][Next]_vars /\ WF_vars(Next)
(* success implies that the bytes are there; failure that they are not *)
Complete == st.pc = "done" /\ S.op = "data" => Len(ev[1].v) = S.size
Terminates == <>Done
Dump == Done => PrintT("SCEN " \o ToJson(sc))
=============================================================================
