------------------------------- MODULE Bookmark ------------------------------
(* Mac OS background item bookmark data: a header, a data area with data     *)
(* records and a table of contents (TOC) whose tagged values refer to data   *)
(* records by their offset in the data area; arrays refer to further data    *)
(* records.                                                                  *)
EXTENDS Text
CONSTANT Src(_)
VARIABLES sc, st, ev
vars == <<sc, st, ev>>
F == Src(sc)
BASE == 48

InitSt == st = [pc |-> "header", toc |-> 0, n |-> 0, i |-> 1, read |-> {}] /\ ev = <<>>
Fail == st' = [st EXCEPT !.pc = "fail"] /\ ev' = <<>>

ReadHeader ==
  /\ st.pc = "header"
  /\ IF ~Fits(F, 0, 48) \/ Sub(F, 0, 4) \notin {<<97, 108, 105, 115>>, <<98, 111, 111, 107>>} THEN Fail
     ELSE /\ st' = [st EXCEPT !.pc = IF LE(F, 4, 4) = Nat2(Len(F)) /\ LEi(F, 12, 4) = BASE THEN "area" ELSE "fail"]
          /\ ev' = <<At("header", 0)>> \o Fields(F, 0, FALSE, <<Field("Signature", 0, 4, "stream"), Field("Size", 4, 4, "dec"), Field("Unknown1", 8, 4, "hex8"),
                     Field("Data area offset", 12, 4, "hex8"), Field("Unknown3", 16, 32, "dump")>>)
  /\ UNCHANGED sc

ReadArea ==
  /\ st.pc = "area"
  /\ IF ~Fits(F, BASE, 4) THEN Fail
     ELSE /\ st' = [st EXCEPT !.pc = "toc", !.toc = BASE + LEi(F, BASE, 4)]
          /\ ev' = <<At("data area size", BASE), Ln("Data area size", Dec(LE(F, BASE, 4)))>>
  /\ UNCHANGED sc

TagAt(i) == st.toc + 20 + 12 * (i - 1)
TagLine(i) == [k |-> "text", v |-> <<9>> \o Lit("tag: ") \o Hex(LE(F, TagAt(i), 4), 4) \o Lit(", data record offset: ") \o Hex(LE(F, TagAt(i) + 4, 4), 8)
                                   \o Lit(", unknown1: ") \o Hex(LE(F, TagAt(i) + 8, 4), 8)]
Count == LEi(F, st.toc + 16, 4)
ReadToc ==
  /\ st.pc = "toc"
  /\ IF ~Fits(F, st.toc, 20) THEN Fail
     ELSE IF Sub(F, st.toc + 4, 4) # <<254, 255, 255, 255>> \/ Count > Len(F) \/ ~Fits(F, st.toc + 20, 12 * Count) THEN Fail
     ELSE /\ st' = [st EXCEPT !.pc = IF LE(F, st.toc + 12, 4) = <<>> THEN "tags" ELSE "fail", !.n = Count]
          /\ ev' = <<At("table of contents (TOC)", st.toc)>>
                   \o Fields(F, st.toc, FALSE, <<Field("Entries data size", 0, 4, "dec"), Field("Unknown1", 4, 4, "hex8"), Field("Identifier", 8, 4, "dec"),
                                                 Field("Next TOC offset", 12, 4, "hex8"), Field("Number of tagged values", 16, 4, "dec")>>)
                   \o <<Hexd("Tagged values", <<>>)>> \o [i \in 1..Count |-> TagLine(i)]
  /\ UNCHANGED sc

(* a data record at an absolute offset                                       *)
DSize(o) == LEi(F, o, 4)
DType(o) == LE(F, o + 4, 4)
Data(o) == Sub(F, o + 8, DSize(o))
T(b2, b1) == Norm(<<b1, b2>>)
Width(o) == CASE DType(o) = T(3, 1) -> 1 [] DType(o) = T(3, 2) -> 2 [] DType(o) \in {T(3, 3), T(3, 5)} -> 4 [] DType(o) \in {T(3, 4), T(3, 6)} -> 8 [] OTHER -> 0
Shape(o) == CASE DType(o) \in {T(3, 1), T(3, 2), T(3, 3), T(3, 4)} -> "integer"
              [] DType(o) \in {T(3, 5), T(3, 6)} -> "float"
              [] DType(o) = T(6, 1) -> "integers"
              [] DType(o) = T(1, 1) -> "string"
              [] OTHER -> "data"
RecOk(o) == /\ o < BIG /\ Fits(F, o, 8) /\ Fits(F, o + 8, DSize(o)) /\ Fits(F, o + 8, Width(o))
            /\ (Shape(o) = "string" => Utf8(Data(o))[1])
IntText(o) == DecS(TwosC(Sub(F, o + 8, Width(o))))
RECURSIVE Commas(_)
Commas(s) == IF Len(s) = 0 THEN <<>> ELSE s[1] \o (IF Len(s) > 1 THEN <<44, 32>> \o Commas(Tail(s)) ELSE <<>>)
RECURSIVE Slashes(_)
Slashes(s) == IF Len(s) = 0 THEN <<>> ELSE s[1] \o (IF Len(s) > 1 THEN <<47>> \o Slashes(Tail(s)) ELSE <<>>)
Items(o) == [i \in 1..(DSize(o) \div 4) |-> LE(F, o + 4 + 4 * i, 4)]
RecEv(o) ==
  <<At("data record", o), Ln("Data size", Dec(LE(F, o, 4))), Ln("Data type", Hex(DType(o), 8))>>
  \o (CASE Shape(o) = "integer" -> <<Ln("Integer", IntText(o))>>
        [] Shape(o) = "float" -> <<Ln("Floating point", IF Width(o) = 4 THEN F32Text(Sub(F, o + 8, 4)) ELSE F64Text(Sub(F, o + 8, 8)))>>
        [] Shape(o) = "integers" -> <<Ln("Integers", Commas([i \in 1..Len(Items(o)) |-> Dec(Items(o)[i])]))>>
        [] Shape(o) = "string" -> <<Ln("String", RStrip0(Utf8(Data(o))[2]))>>
        [] OTHER -> <<Hexd("Data", Data(o))>>)

Ref(o, i) == BASE + Sat(Items(o)[i])
RefsOk(o, shape) == Shape(o) = "integers" /\ \A i \in 1..Len(Items(o)) : RecOk(Ref(o, i)) /\ Shape(Ref(o, i)) = shape
RefsEv(o) == FlatSeq([i \in 1..Len(Items(o)) |-> RecEv(Ref(o, i))])
FlagsEv(o) == Fields(F, o + 8, FALSE, <<Field("Flags", 0, 8, "hex8"), Field("Valid flags bitmask", 8, 8, "hex8"), Field("Unknown", 16, 8, "hex8")>>)

Rec == BASE + LEi(F, TagAt(st.i) + 4, 4)
Tag == LE(F, TagAt(st.i), 4)
Use(o) == CASE DType(o) = T(4, 0) -> "time" [] Tag = T(16, 4) -> "path" [] Tag = T(16, 5) -> "ints" [] Tag \in {T(16, 16), T(32, 32)} -> "flags" [] OTHER -> "plain"
UseOk(o) == CASE Use(o) = "time" -> DSize(o) >= 8
              [] Use(o) = "path" -> RefsOk(o, "string")
              [] Use(o) = "ints" -> RefsOk(o, "integer")
              [] Use(o) = "flags" -> Shape(o) = "data" /\ DSize(o) >= 24
              [] OTHER -> TRUE
UseEv(o) == CASE Use(o) = "time" -> <<Ln("Cocoa timestamp", F64Text(Rev(Sub(F, o + 8, 8))))>>
              [] Use(o) = "path" -> RefsEv(o) \o <<Ln("Path", Slashes([i \in 1..Len(Items(o)) |-> Utf8(Data(Ref(o, i)))[2]]))>>
              [] Use(o) = "ints" -> RefsEv(o) \o <<Ln("Integers array", Commas([i \in 1..Len(Items(o)) |-> IntText(Ref(o, i))]))>>
              [] Use(o) = "flags" -> FlagsEv(o)
              [] OTHER -> <<>>
ReadTag ==
  /\ st.pc = "tags" /\ st.i <= st.n
  /\ LET o == Rec IN
     IF ~RecOk(o) THEN Fail
     ELSE IF ~UseOk(o) THEN Fail
     ELSE /\ st' = [st EXCEPT !.i = @ + 1, !.read = @ \cup {o} \cup (IF Use(o) \in {"path", "ints"} THEN {Ref(o, i) : i \in 1..Len(Items(o))} ELSE {})]
          /\ ev' = <<Ln("Value tag", Hex(Tag, 4))>> \o RecEv(o) \o UseEv(o)
  /\ UNCHANGED sc

Finish ==
  /\ st.pc = "tags" /\ st.i > st.n
  /\ st' = [st EXCEPT !.pc = "done"] /\ ev' = <<>>
  /\ UNCHANGED sc

Next == ReadHeader \/ ReadArea \/ ReadToc \/ ReadTag \/ Finish
Done == st.pc \in {"done", "fail"}
Outcomes == IF st.pc = "done" THEN {"ok"} ELSE {"ParseError"}
-----------------------------------------------------------------------------
Complete == st.pc = "done" => LE(F, 4, 4) = Nat2(Len(F)) /\ st.i = st.n + 1
(* every record that was read lies in the file                               *)
Inside == \A o \in st.read : o + 8 + DSize(o) <= Len(F)
=============================================================================
