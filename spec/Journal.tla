------------------------------ MODULE Journal -------------------------------
(* systemd journal: a chain of entry arrays gives the entry objects in      *)
(* order; each entry object gives its data objects in order.                *)
EXTENDS Text

CONSTANT Src(_)
VARIABLES sc, st, ev
vars == <<sc, st, ev>>
F == Src(sc)

SIG == <<76, 80, 75, 83, 72, 72, 82, 72>>
HeaderTable ==
  << Field("Signature", 0, 8, "stream"), Field("Compatible flags", 8, 4, "hex8"),
     Field("Incompatible flags", 12, 4, "hex8"), Field("State", 16, 1, "hex2"), Field("Reserved", 17, 7, "dump"),
     Field("File identifier", 24, 16, "dump"), Field("Machine identifier", 40, 16, "dump"),
     Field("Boot identifier", 56, 16, "dump"), Field("Sequence number identifier", 72, 16, "dump"),
     Field("Header size", 88, 8, "dec"), Field("Arena size", 96, 8, "dec"),
     Field("Data hash table offset", 104, 8, "hex8"), Field("Data hash table size", 112, 8, "dec"),
     Field("Field hash table offset", 120, 8, "hex8"), Field("Field hash table size", 128, 8, "dec"),
     Field("Tail object offset", 136, 8, "hex8"), Field("Number of objects", 144, 8, "dec"),
     Field("Number of entry objects", 152, 8, "dec"), Field("Tail entry sequence number", 160, 8, "hex8"),
     Field("Head entry sequence number", 168, 8, "hex8"), Field("Entry array offset", 176, 8, "hex8"),
     Field("Head entry real time", 184, 8, "micro"), Field("Tail entry real time", 192, 8, "micro"),
     Field("Tail entry monotonic", 200, 8, "hex8") >>

TypeNames == <<"OBJECT_UNUSED", "OBJECT_DATA", "OBJECT_FIELD", "OBJECT_ENTRY", "OBJECT_DATA_HASH_TABLE",
               "OBJECT_FIELD_HASH_TABLE", "OBJECT_ENTRY_ARRAY", "OBJECT_TAG">>
Paren(s) == <<32, 40>> \o Lit(s) \o <<41>>
TypeText(t) == DecI(t) \o Paren(IF t < 8 THEN TypeNames[t + 1] ELSE "UNKNOWN")
FlagText(f) == Hex(Nat2(f), 2) \o (IF f = 0 THEN <<>> ELSE Paren(CASE f = 1 -> "OBJECT_COMPRESSED_XZ"
                                              [] f = 2 -> "OBJECT_COMPRESSED_LZ4" [] OTHER -> "UNKNOWN"))
ObjectEv(p) == <<Ln("Object type", TypeText(F[p + 1])), Ln("Object flags", FlagText(F[p + 2])),
                 Hexd("Reserved", Sub(F, p + 2, 6)), Ln("Data size", Dec(LE(F, p + 8, 8)))>>
DataTable ==
  << Field("Hash", 16, 8, "hex8"), Field("Next hash offset", 24, 8, "hex8"), Field("Next field offset", 32, 8, "hex8"),
     Field("Entry offset", 40, 8, "hex8"), Field("Entry array offset", 48, 8, "hex8"), Field("Number of entries", 56, 8, "dec") >>
EntryTable ==
  << Field("Sequence number", 16, 8, "dec"), Field("Real time", 24, 8, "micro"), Field("Monotonic", 32, 8, "hex8"),
     Field("Boot identifier", 40, 16, "dump"), Field("XOR hash", 56, 8, "hex8") >>

Size(p) == LEi(F, p + 8, 8)
(* an object of the given type whose variable part starts at min and holds  *)
(* items of unit bytes; no flags unless allowed                             *)
Good(p, type, min, unit, flags) ==
  /\ p < BIG /\ Fits(F, p, min) /\ Size(p) >= min /\ Fits(F, p, Size(p))
  /\ (Size(p) - min) % unit = 0
  /\ F[p + 1] = type /\ F[p + 2] \in flags

InitSt == st = [pc |-> "header", off |-> 0, seen |-> {}, todo |-> <<>>, items |-> <<>>] /\ ev = <<>>
Fail == st' = [st EXCEPT !.pc = "fail"] /\ ev' = <<>>

ReadHeader ==
  /\ st.pc = "header"
  /\ IF ~Fits(F, 0, 208) \/ Sub(F, 0, 8) # SIG \/ LEi(F, 88, 8) \notin {208, 224, 240} THEN Fail
     ELSE /\ st' = [st EXCEPT !.pc = "arrays", !.off = LEi(F, 176, 8)]
          /\ ev' = <<At("file header", 0)>> \o Fields(F, 0, FALSE, HeaderTable)
  /\ UNCHANGED sc

(* the lists are reported as a heading and one line per element             *)
Listing(label, lines) == IF lines = <<>> THEN <<Ln(label, <<>>)>> ELSE <<Hexd(label, <<>>)>> \o lines

ReadEntryArray ==
  /\ st.pc = "arrays"
  /\ LET p == st.off
         n == (Size(p) - 24) \div 8
         offs == [i \in 1..n |-> LEi(F, p + 24 + 8 * (i - 1), 8)]
     IN IF p \in st.seen \/ ~Good(p, 6, 24, 8, {0}) THEN Fail
        ELSE /\ st' = [st EXCEPT !.pc = IF AllZero(Sub(F, p + 16, 8)) THEN "entries" ELSE "arrays",
                                 !.off = LEi(F, p + 16, 8), !.seen = @ \cup {p}, !.todo = @ \o offs]
             /\ ev' = <<At("entry array object", p)>> \o ObjectEv(p)
                      \o <<Ln("Next entry array offset", Hex(LE(F, p + 16, 8), 8))>>
                      \o Listing("Entry object offsets",
                           [i \in 1..n |-> Ln("    Entry object offset: " \o ToString(i - 1), Hex(LE(F, p + 24 + 8 * (i - 1), 8), 8))])
  /\ UNCHANGED sc

SkipUnused ==
  /\ st.pc = "entries" /\ st.items = <<>> /\ st.todo # <<>> /\ Head(st.todo) = 0
  /\ st' = [st EXCEPT !.todo = Tail(@)] /\ ev' = <<>>
  /\ UNCHANGED sc

ReadEntry ==
  /\ st.pc = "entries" /\ st.items = <<>> /\ st.todo # <<>> /\ Head(st.todo) # 0
  /\ LET p == Head(st.todo)
         n == (Size(p) - 64) \div 16
     IN IF ~Good(p, 3, 64, 16, {0}) THEN Fail
        ELSE /\ st' = [st EXCEPT !.todo = Tail(@), !.items = [i \in 1..n |-> LEi(F, p + 64 + 16 * (i - 1), 8)]]
             /\ ev' = <<At("entry object", p)>> \o ObjectEv(p) \o Fields(F, p, FALSE, EntryTable)
                      \o Listing("Entry items", FlatSeq([i \in 1..n |->
                           <<Ln("    Entry item: " \o ToString(i - 1) \o " object offset", Hex(LE(F, p + 64 + 16 * (i - 1), 8), 8)),
                             Ln("    Entry item: " \o ToString(i - 1) \o " hash", Hex(LE(F, p + 72 + 16 * (i - 1), 8), 8))>>]))
  /\ UNCHANGED sc

ReadData ==
  /\ st.pc = "entries" /\ st.items # <<>>
  /\ LET p == Head(st.items) IN
     IF ~Good(p, 1, 64, 1, {0, 1, 2}) THEN Fail
     ELSE /\ st' = [st EXCEPT !.items = Tail(@)]
          /\ ev' = <<At("data object", p), Hexd("Data object data", Sub(F, p, Size(p)))>> \o ObjectEv(p)
                   \o Fields(F, p, FALSE, DataTable)
  /\ UNCHANGED sc

Finish ==
  /\ st.pc = "entries" /\ st.items = <<>> /\ st.todo = <<>>
  /\ st' = [st EXCEPT !.pc = "done"] /\ ev' = <<>>
  /\ UNCHANGED sc

Next == ReadHeader \/ ReadEntryArray \/ SkipUnused \/ ReadEntry \/ ReadData \/ Finish
Done == st.pc \in {"done", "fail"}
Outcomes == IF st.pc = "done" THEN {"ok"} ELSE {"ParseError"}
-----------------------------------------------------------------------------
ArraysOnce == [][st.pc = "arrays" /\ st'.pc \in {"arrays", "entries"} => st.off \notin st.seen]_vars
=============================================================================
