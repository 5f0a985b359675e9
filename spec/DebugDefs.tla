------------------------------ MODULE DebugDefs ------------------------------
(* Debug definitions: a file of definitions, read one after the other.  A   *)
(* definition names a data type map and lists its attributes in order; the  *)
(* first definition that is not valid ends the reading with ParseError.     *)
EXTENDS Text

CONSTANT Src(_)
(* [docs : Seq(doc), custom : Seq(text), mode : "read" | "info"]            *)
(* doc = [empty : BOOLEAN, extra : BOOLEAN, map : text, attrs : Seq(attr)]; *)
(* attr = [n : text, d : text, f : text]; empty text: the key is missing    *)
(* (or without a value)                                                     *)
VARIABLES sc, st, ev
vars == <<sc, st, ev>>
S == Src(sc)

Formats == {Lit("binary_data"), Lit("decimal"), Lit("floating_point"), Lit("hexadecimal"), Lit("hexadecimal_2digits"),
            Lit("hexadecimal_4digits"), Lit("hexadecimal_8digits"), Lit("string"), Lit("uuid")}
CUSTOM == Lit("custom:")
KnownFormat(f) == f \in Formats \/ StartsWith(f, CUSTOM)

GoodAttr(as, i) == /\ as[i].n # <<>> /\ as[i].d # <<>> /\ as[i].f # <<>>
                   /\ KnownFormat(as[i].f)
                   /\ \A j \in 1..(i - 1) : as[j].n # as[i].n
Valid(doc) == /\ ~doc.empty /\ ~doc.extra /\ doc.map # <<>> /\ Len(doc.attrs) > 0
              /\ \A i \in 1..Len(doc.attrs) : GoodAttr(doc.attrs, i)

(* the function a format is shown with: one per format ("hexadecimal" has   *)
(* none) or the one registered under the name of a custom format            *)
CustomNames == {S.custom[i] : i \in 1..Len(S.custom)}
Callback(f) ==
  IF StartsWith(f, CUSTOM)
  THEN LET name == SubSeq(f, Len(CUSTOM) + 1, Len(f)) IN
       IF name \in CustomNames THEN Lit("cb:") \o name ELSE <<>>
  ELSE CASE f = Lit("binary_data") -> Lit("_FormatDataInHexadecimal")
         [] f = Lit("decimal") -> Lit("_FormatIntegerAsDecimal")
         [] f = Lit("floating_point") -> Lit("_FormatFloatingPoint")
         [] f = Lit("hexadecimal_2digits") -> Lit("_FormatIntegerAsHexadecimal2")
         [] f = Lit("hexadecimal_4digits") -> Lit("_FormatIntegerAsHexadecimal4")
         [] f = Lit("hexadecimal_8digits") -> Lit("_FormatIntegerAsHexadecimal8")
         [] f = Lit("string") -> Lit("_FormatString")
         [] f = Lit("uuid") -> Lit("_FormatUUIDAsString")
         [] OTHER -> <<>>

ReadEv(doc) == <<[k |-> "map", v |-> doc.map]>>
               \o FlatSeq([i \in 1..Len(doc.attrs) |->
                    <<[k |-> "name", v |-> doc.attrs[i].n], [k |-> "description", v |-> doc.attrs[i].d],
                      [k |-> "format", v |-> doc.attrs[i].f]>>])
(* the debug information: per data type map, where a later definition of    *)
(* the same data type map replaces the earlier one (but keeps its place)    *)
InfoEv(doc, first) == <<[k |-> "map", v |-> first]>>
               \o FlatSeq([i \in 1..Len(doc.attrs) |->
                    <<[k |-> "name", v |-> doc.attrs[i].n], [k |-> "description", v |-> doc.attrs[i].d],
                      [k |-> "callback", v |-> Callback(doc.attrs[i].f)]>>])
AllValid == \A i \in 1..Len(S.docs) : Valid(S.docs[i])
LastOf(i) == LET same == {j \in 1..Len(S.docs) : S.docs[j].map = S.docs[i].map} IN CHOOSE j \in same : \A x \in same : x <= j
IsFirst(i) == \A j \in 1..(i - 1) : S.docs[j].map # S.docs[i].map

InitSt == st = [pc |-> "run", i |-> 1] /\ ev = <<>>
Step ==
  /\ st.pc = "run" /\ st.i <= Len(S.docs)
  /\ IF S.mode = "info"
     THEN IF ~AllValid THEN st' = [st EXCEPT !.pc = "error"] /\ ev' = <<[k |-> "parseerror", v |-> <<>>]>>
          ELSE /\ st' = [st EXCEPT !.i = @ + 1]
               /\ ev' = IF IsFirst(st.i) THEN InfoEv(S.docs[LastOf(st.i)], S.docs[st.i].map) ELSE <<>>
     ELSE IF Valid(S.docs[st.i])
          THEN st' = [st EXCEPT !.i = @ + 1] /\ ev' = ReadEv(S.docs[st.i])
          ELSE st' = [st EXCEPT !.pc = "error"] /\ ev' = <<[k |-> "parseerror", v |-> <<>>]>>
  /\ UNCHANGED sc
End == /\ st.pc = "run" /\ st.i > Len(S.docs)
       /\ st' = [st EXCEPT !.pc = "done"] /\ ev' = <<[k |-> "end", v |-> <<>>]>> /\ UNCHANGED sc
Next == Step \/ End
Done == st.pc \in {"done", "error"}
Outcomes == {"ok"}
-----------------------------------------------------------------------------
(* a file is read to its end only when every definition in it is valid      *)
AllOrError == st.pc = "done" => AllValid
=============================================================================
