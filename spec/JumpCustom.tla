------------------------------ MODULE JumpCustom ------------------------------
(* Custom Destinations Jump List: categories of LNK files.                  *)
EXTENDS Text
(* Lnks: what the LNK library makes of the data at an offset:               *)
(* [o: offset, ok, n: size that was read]                                   *)
CONSTANTS Src(_), Lnks(_)
VARIABLES sc, st, ev
vars == <<sc, st, ev>>
F == Src(sc)
FOOTER == <<171, 251, 191, 186>>
GUID == <<1, 20, 2, 0, 0, 0, 0, 0, 192, 0, 0, 0, 0, 0, 0, 70>>
LnkAt(o) == LET hits == {i \in 1..Len(Lnks(sc)) : Lnks(sc)[i].o = o} IN
            IF hits = {} THEN [o |-> o, ok |-> FALSE, n |-> 0] ELSE Lnks(sc)[CHOOSE i \in hits : TRUE]

InitSt == st = [pc |-> "header", o |-> 0, cats |-> 0, left |-> 0, es |-> <<>>] /\ ev = <<>>
Fail == st' = [st EXCEPT !.pc = "fail"] /\ ev' = <<>>
FailEv(e) == st' = [st EXCEPT !.pc = "fail"] /\ ev' = e

ReadHeader ==
  /\ st.pc = "header"
  /\ IF ~Fits(F, 0, 12) \/ LEi(F, 0, 4) # 2 THEN Fail
     ELSE /\ st' = [st EXCEPT !.pc = "category", !.o = 12, !.cats = LEi(F, 4, 4)]
          /\ ev' = <<At("file header", 0)>> \o Fields(F, 0, FALSE, <<Field("Format version", 0, 4, "dec"), Field("Number of categories", 4, 4, "dec"), Field("Unknown1", 8, 4, "hex8")>>)
  /\ UNCHANGED sc
TYPES == <<Lit("0 (Custom category)"), Lit("1 (Known category)"), Lit("2 (User tasks)")>>
Name(o, n) == Utf16(Sub(F, o, 2 * n))
ReadCategory ==
  /\ st.pc = "category"
  /\ LET o == st.o
         t == LEi(F, o, 4)
         n == LEi(F, o + 4, 2)
         p == Name(o + 6, n)
         q == o + 6 + 2 * n
         ats == <<At("category header", o), At("category header values", o + 4)>>
         Enter(e, k) == [st EXCEPT !.pc = "entry", !.o = e, !.left = k]
     IN IF st.cats = 0 THEN st' = [st EXCEPT !.pc = "trailing"] /\ ev' = <<>>
        ELSE IF ~Fits(F, o, 4) \/ t > 2 THEN Fail
        ELSE IF t = 0 THEN
          IF ~Fits(F, o + 4, 2) \/ ~Fits(F, o + 6, 2 * n) \/ ~Fits(F, q, 4) \/ ~p[1] THEN Fail
          ELSE /\ st' = Enter(q + 4, LEi(F, q, 4))
               /\ ev' = ats \o <<Ln("Category type", TYPES[1]), Ln("Number of characters", DecI(n)), Ln("Category name", RStrip0(p[2])), Ln("Number of entries", Dec(LE(F, q, 4)))>>
        ELSE IF ~Fits(F, o + 4, 4) THEN Fail
        ELSE IF t = 1 THEN
               /\ st' = Enter(o + 8, 0)
               /\ ev' = ats \o <<Ln("Category type", TYPES[2]), Ln("Category identifier", Dec(LE(F, o + 4, 4)))>>
        ELSE /\ st' = Enter(o + 8, LEi(F, o + 4, 4))
             /\ ev' = ats \o <<Ln("Category type", TYPES[3]), Ln("Number of entries", Dec(LE(F, o + 4, 4)))>>
  /\ UNCHANGED sc
(* entries end by their number, at a category footer or near the end of the *)
(* file                                                                     *)
ReadEntry ==
  /\ st.pc = "entry"
  /\ LET o == st.o
         at == <<At("entry header", o)>>
         l == LnkAt(o + 16)
         told == <<[k |-> "text", v |-> Lit("Reading LNK file at offset: ") \o Hex(Nat2(o + 16), 8)]>>
         Stop == [st EXCEPT !.pc = "footer"]
     IN IF st.left = 0 \/ Len(F) - o < 16 THEN st' = Stop /\ ev' = <<>>
        ELSE IF Sub(F, o, 16) = GUID THEN
          IF ~l.ok THEN FailEv(at \o told)
          ELSE /\ st' = [st EXCEPT !.o = o + 16 + l.n, !.left = IF @ = BIG THEN BIG ELSE @ - 1,
                                   !.es = Append(@, [k |-> "!entry", id |-> Hex(Nat2(o + 16), 8), flags |-> LE(F, o + 40, 4), size |-> LE(F, o + 68, 4)])]
               /\ ev' = at \o told
        ELSE IF Sub(F, o, 4) = FOOTER THEN st' = Stop /\ ev' = at
        ELSE Fail
  /\ UNCHANGED sc
ReadFooter ==
  /\ st.pc = "footer"
  /\ IF ~Fits(F, st.o, 4) \/ Sub(F, st.o, 4) # FOOTER THEN Fail
     ELSE /\ st' = [st EXCEPT !.pc = "category", !.o = @ + 4, !.cats = IF @ = BIG THEN BIG ELSE @ - 1]
          /\ ev' = <<At("category footer", st.o), Hexd("Signature", FOOTER)>>
  /\ UNCHANGED sc
Trailing ==
  /\ st.pc = "trailing"
  /\ st' = [st EXCEPT !.pc = "done"]
  /\ ev' = (IF st.o < Len(F) THEN <<Hexd("Trailing data", Sub(F, st.o, Len(F) - st.o))>> ELSE <<>>) \o st.es
  /\ UNCHANGED sc
Next == ReadHeader \/ ReadCategory \/ ReadEntry \/ ReadFooter \/ Trailing
Done == st.pc \in {"done", "fail"}
Outcomes == IF st.pc = "done" THEN {"ok"} ELSE {"ParseError"}
-----------------------------------------------------------------------------
Footed == st.pc = "done" => st.o <= Len(F)
Progress == [][st'.o >= st.o]_vars
=============================================================================
