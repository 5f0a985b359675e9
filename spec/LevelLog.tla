------------------------------ MODULE LevelLog -------------------------------
(* LevelDB write ahead log and descriptor (manifest): a log is a sequence   *)
(* of pages; a record is stored in one or more fragments, none of which     *)
(* crosses the end of a page, and up to 6 bytes before the end of a page    *)
(* are left unused.  The record of a log is a batch of values, that of a    *)
(* descriptor a sequence of tagged values.                                  *)
EXTENDS Text
CONSTANT Src(_), Page(_), Kind(_)
VARIABLES sc, st, ev
vars == <<sc, st, ev>>
F == Src(sc)
PAGE == Page(sc)

InitSt == st = [pc |-> "frag", pos |-> 0, rec |-> <<>>, ro |-> 0, o |-> 0, n |-> 0] /\ ev = <<>>
Fail(e) == st' = [st EXCEPT !.pc = "fail"] /\ ev' = e

(* where the fragment after one of size n at p starts                       *)
After(p, n) == LET e == p + n
                   pageEnd == (p \div PAGE + 1) * PAGE
               IN IF pageEnd - e <= 6 THEN pageEnd ELSE e

BlockTable(n) == << Field("Checksum", 0, 4, "hex8"), Field("Record data size", 4, 2, "dec"), Field("Record type", 6, 1, "dec"),
                    Field("Record data", 7, n, "dump") >>
ReadFragment ==
  /\ st.pc = "frag" /\ st.pos < Len(F)
  /\ LET p == st.pos IN
     IF ~Fits(F, p, 7) THEN Fail(<<>>)
     ELSE LET n == LEi(F, p + 4, 2)
              t == F[p + 7]
              d == Sub(F, p + 7, n)
          IN IF ~Fits(F, p + 7, n) THEN Fail(<<>>)
             ELSE /\ ev' = <<At("block", p)>> \o Fields(F, p, FALSE, BlockTable(n))
                  /\ st' = [st EXCEPT !.pc = IF t \in {1, 4} THEN "record" ELSE "frag",
                                      !.pos = After(p, 7 + n),
                                      !.rec = IF t \in {1, 2} THEN d ELSE IF t \in {3, 4} THEN @ \o d ELSE @,
                                      !.ro = IF t \in {1, 2} THEN p ELSE @]
  /\ UNCHANGED sc

R == st.rec
RLen == Len(st.rec)
StartRecord ==
  /\ st.pc = "record"
  /\ LET off == Ln("Offset", Dec(Nat2(st.ro))) IN
     IF Kind(sc) = "log" THEN
       IF RLen < 12 THEN Fail(<<off>>)
       ELSE /\ ev' = <<off, Ln("Sequence number", Dec(LE(R, 0, 8))), Ln("Number of values", Dec(LE(R, 8, 4)))>>
            /\ st' = [st EXCEPT !.pc = "value", !.o = 12, !.n = @ + 1]
     ELSE ev' = <<off>> /\ st' = [st EXCEPT !.pc = "tagged", !.o = 0, !.n = @ + 1]
  /\ UNCHANGED sc
EndRecord == st.pc \in {"value", "tagged"} /\ st.o >= RLen /\ st' = [st EXCEPT !.pc = "frag"] /\ ev' = <<>> /\ UNCHANGED sc

(* the parts of a value: int (a variable size integer), slice (sized bytes) *)
(* and string (sized UTF-8 text).  Result: the events and the offset after  *)
(* the part, -1 if it does not fit.                                         *)
Part(kind, label, o) ==
  LET i == VarInt(R, o, RLen)
      size == Sat(i.v)
      at == o + i.n
  IN IF i.n = 0 THEN [e |-> <<>>, o |-> -1]
     ELSE IF kind = "int" THEN [e |-> <<Ln(label, Dec(i.v))>>, o |-> at]
     ELSE IF ~Fits(R, at, size) THEN [e |-> <<>>, o |-> -1]
     ELSE IF kind = "slice" THEN [e |-> <<Ln(label \o " size", Dec(i.v)), Hexd(label, Sub(R, at, size))>>, o |-> at + size]
     ELSE LET t == Utf8(Sub(R, at, size)) IN
          IF ~t[1] THEN [e |-> <<>>, o |-> -1]
          ELSE [e |-> <<Ln(label \o " string size", Dec(i.v)), Ln(label \o " string", t[2])>>, o |-> at + size]
RECURSIVE Parts(_, _, _)
Parts(ps, o, acc) ==
  IF Len(ps) = 0 THEN [e |-> acc, o |-> o]
  ELSE LET p == Part(ps[1][1], ps[1][2], o) IN IF p.o < 0 THEN [e |-> acc, o |-> -1] ELSE Parts(Tail(ps), p.o, acc \o p.e)
Value(ps, first, o, again) ==
  LET r == Parts(ps, o, first) IN
  IF r.o < 0 THEN Fail(r.e) ELSE ev' = r.e /\ st' = [st EXCEPT !.pc = again, !.o = r.o]

TypeName(t) == IF t = 0 THEN " (kTypeDeletion)" ELSE IF t = 1 THEN " (kTypeValue)" ELSE " (UNKNOWN)"
ReadValue ==
  /\ st.pc = "value" /\ st.o < RLen
  /\ LET t == R[st.o + 1]
         e == <<Ln("Value type", DecI(t) \o Lit(TypeName(t)))>>
     IN IF t > 1 THEN Fail(e)
        ELSE Value(IF t = 1 THEN << <<"slice", "Key">>, <<"slice", "Value">> >> ELSE << <<"slice", "Key">> >>, e, st.o + 1, "value")
  /\ UNCHANGED sc

Tags == [t \in {1, 2, 3, 4, 5, 6, 7, 9} |->
  CASE t = 1 -> [n |-> " (kComparator)", p |-> << <<"string", "Name">> >>]
    [] t = 2 -> [n |-> " (kLogNumber)", p |-> << <<"int", "Log number">> >>]
    [] t = 3 -> [n |-> " (kNextFileNumber)", p |-> << <<"int", "Next file number">> >>]
    [] t = 4 -> [n |-> " (kLastSequence)", p |-> << <<"int", "Last sequence number">> >>]
    [] t = 5 -> [n |-> " (kCompactPointer)", p |-> << <<"int", "Level">>, <<"slice", "Key">> >>]
    [] t = 6 -> [n |-> " (kDeletedFile)", p |-> << <<"int", "Level">>, <<"int", "File number">> >>]
    [] t = 7 -> [n |-> " (kNewFile)", p |-> << <<"int", "Level">>, <<"int", "File number">>, <<"int", "File size">>,
                                             <<"slice", "Smallest record key">>, <<"slice", "Largest record key">> >>]
    [] t = 9 -> [n |-> " (kPrevLogNumber)", p |-> << <<"int", "Previous log number">> >>]]
ReadTagged ==
  /\ st.pc = "tagged" /\ st.o < RLen
  /\ LET i == VarInt(R, st.o, RLen)
         t == Sat(i.v)
     IN IF i.n = 0 THEN Fail(<<>>)
        ELSE IF t \notin DOMAIN Tags THEN Fail(<<Ln("Value tag", Dec(i.v) \o Lit(" (UNKNOWN)"))>>)
        ELSE Value(Tags[t].p, <<Ln("Value tag", Dec(i.v) \o Lit(Tags[t].n))>>, st.o + i.n, "tagged")
  /\ UNCHANGED sc
Finish == st.pc = "frag" /\ st.pos >= Len(F) /\ st' = [st EXCEPT !.pc = "done"] /\ ev' = <<>> /\ UNCHANGED sc

Next == ReadFragment \/ StartRecord \/ EndRecord \/ ReadValue \/ ReadTagged \/ Finish
Done == st.pc \in {"done", "fail"}
Outcomes == IF st.pc = "done" THEN {"ok"} ELSE {"ParseError"}
-----------------------------------------------------------------------------
(* every fragment starts where a fragment can be                            *)
FragmentStart == st.pc = "frag" /\ st.pos < Len(F) => PAGE - (st.pos % PAGE) > 6
Forward == [][st'.pos >= st.pos /\ (st.pc = "frag" /\ st'.pc # "done" /\ st'.pc # "fail" => st'.pos > st.pos)]_vars
InRecord == st.pc \in {"value", "tagged"} => st.o <= RLen
=============================================================================
