-------------------------------- MODULE AmCache --------------------------------
(* AMCache Windows Registry files.  A key is [n, v, k]: its name, values and   *)
(* sub keys; a value is [n, t, d]: its name, type and data.  R.files is the    *)
(* history of files that one reader reads, of which ok tells if it is a        *)
(* Registry file and root is its root key.                                     *)
EXTENDS Text
CONSTANT Src(_)
VARIABLES sc, st, ev
vars == <<sc, st, ev>>
R == Src(sc)
File == R.files[st.f]

Lower(s) == [i \in 1..Len(s) |-> IF s[i] >= 65 /\ s[i] <= 90 THEN s[i] + 32 ELSE s[i]]
RootNames == {Lit("{11517b7c-e79d-4e20-961b-75a811715add}"), Lit("{356c48f6-2fee-e7ef-2a64-39f59ec3be22}")}
(* the sub key of a name; names are alike whatever their case                  *)
Named(keys, name) == SelectSeq(keys, LAMBDA key : Lower(key.n) = Lower(Lit(name)))
Under(keys) == FlatSeq([i \in 1..Len(keys) |-> keys[i].k])
Tagged(kind, keys) == [i \in 1..Len(keys) |-> [kind |-> kind, key |-> keys[i]]]
(* the keys that are described, in the order of the file                       *)
Entries(root) ==
  LET top == Under(Named(root.k, "Root"))
  IN IF Lower(root.n) \notin RootNames THEN <<>>
     ELSE Tagged("File", Under(Under(Named(top, "File")))) \o Tagged("Program", Under(Named(top, "Programs")))
          \o Tagged("Application", Under(Named(top, "InventoryApplication")))
          \o Tagged("Application File", Under(Named(top, "InventoryApplicationFile")))

(* the sequence number and MFT entry of a file, without leading zeros, with    *)
(* 0000 between                                                                *)
Hexadecimal(s) == AllDigits(s, 16) /\ s[1] # 48
Splits(n) == {i \in 1..MinOf(4, Len(n) - 5) :
  LET rest == SubSeq(n, i + 5, Len(n))
  IN Hexadecimal(SubSeq(n, 1, i)) /\ SubSeq(n, i + 1, i + 4) = Lit("0000") /\ (rest = <<48>> \/ (Hexadecimal(rest) /\ Len(rest) <= 12))}
Reference(n) ==
  IF Splits(n) = {} THEN <<>>
  ELSE LET i == CHOOSE j \in Splits(n) : TRUE
       IN Lit(" (") \o Dec(Norm(DigitsNat(SubSeq(n, i + 5, Len(n)), 16))) \o <<45>> \o Dec(Norm(DigitsNat(SubSeq(n, 1, i), 16))) \o <<41>>
Title(e) == [k |-> "text", v |-> Lit(e.kind) \o Lit(": ") \o e.key.n \o (IF e.kind = "File" THEN Reference(e.key.n) ELSE <<>>)]

FileNames == ("0" :> "Product name") @@ ("1" :> "Company name") @@ ("3" :> "Language code") @@ ("5" :> "File version") @@ ("6" :> "File size")
  @@ ("7" :> "PE/COFF image size") @@ ("9" :> "PE/COFF checksum") @@ ("c" :> "File description") @@ ("d" :> "PE/COFF image version")
  @@ ("f" :> "PE/COFF compilation time") @@ ("11" :> "File modification time") @@ ("12" :> "File creation time") @@ ("15" :> "Path")
  @@ ("100" :> "Program identifier") @@ ("101" :> "SHA-1")
ProgramNames == ("0" :> "Name") @@ ("1" :> "Version") @@ ("2" :> "Publisher") @@ ("3" :> "Language code") @@ ("6" :> "Installation method")
  @@ ("7" :> "Uninstallation key paths") @@ ("a" :> "Installation time") @@ ("b" :> "Uninstallation time") @@ ("d" :> "Installation directories")
  @@ ("Files" :> "File reference key identifiers")
ApplicationNames == ("ProgramId" :> "Program identifier") @@ ("ProgramInstanceId" :> "Program instance identifier")
Names(kind) == CASE kind = "File" -> FileNames [] kind = "Program" -> ProgramNames [] kind = "Application" -> ApplicationNames [] OTHER -> <<>>
Label(kind, n) ==
  LET s == StrOf(n)
  IN IF n = <<>> THEN "(default)" ELSE IF IsAscii(n) /\ s \in DOMAIN Names(kind) THEN Names(kind)[s] ELSE s

IntegerSize(t) == CASE t \in {4, 5} -> 4 [] t = 11 -> 8 [] OTHER -> 0
Readable(v) == Len(v.d) >= IntegerSize(v.t) /\ (v.t = 7 => v.d # <<>>)
Integer(v) == IF v.t = 5 THEN BE(v.d, 0, 4) ELSE LE(v.d, 0, IntegerSize(v.t))
String(d) == LET z == Utf16Nul(d) IN Utf16(IF z >= 0 THEN SubSeq(d, 1, z) ELSE d)[2]
RECURSIVE Strings(_)
Strings(d) == LET z == Utf16Nul(d) IN IF z <= 0 THEN <<>> ELSE <<Utf16(SubSeq(d, 1, z))[2]>> \o Strings(SubSeq(d, z + 3, Len(d)))
Is(v, names) == v.n \in {Lit(x) : x \in names}
Version(n) == Dec(ShrN(n, 16)) \o <<46>> \o Dec(LE(n \o <<0, 0>>, 0, 2))
(* an integer is a date or version by its name                                 *)
IntegerText(kind, v) ==
  LET n == Integer(v)
  IN CASE kind = "File" /\ Is(v, {"d"}) -> Version(n)
       [] kind = "File" /\ Is(v, {"f"}) -> PosixText(n)
       [] kind = "File" /\ Is(v, {"11", "12", "17"}) -> FiletimeText(n)
       [] kind = "Program" /\ Is(v, {"a", "b"}) -> PosixText(n)
       [] OTHER -> Dec(n)
ValueEv(kind, v) ==
  LET l == Label(kind, v.n)
      each == Strings(v.d)
  IN CASE v.t = 7 -> IF kind = "Program" /\ Is(v, {"7", "d", "Files"}) THEN [i \in 1..Len(each) |-> Ln(IF i = 1 THEN l ELSE "", each[i])] ELSE <<Ln(l, ListText(each))>>
       [] IntegerSize(v.t) > 0 -> <<Ln(l, IntegerText(kind, v))>>
       [] v.d = <<>> -> <<Ln(l, NoneText)>>
       [] v.t \in {1, 2, 6} -> <<Ln(l, String(v.d))>>
       [] OTHER -> <<Ln(l, <<98>> \o BytesRepr(v.d))>>

(* st.all has the entries of a file, st.i is the entry and st.j the value of   *)
(* it (0 for its name)                                                         *)
InitSt == st = [pc |-> "open", f |-> 1, i |-> 1, j |-> 0, all |-> <<>>] /\ ev = <<>>
More == st.pc = "run"
All == st.all
End(res) == st' = [st EXCEPT !.pc = "open", !.f = @ + 1, !.i = 1, !.j = 0] /\ ev' = <<[k |-> "!end", res |-> res]>> /\ UNCHANGED sc
Opening == st.pc = "open" /\ st.f <= Len(R.files)
Refuse == Opening /\ ~File.ok /\ End("ParseError")
Open == Opening /\ File.ok /\ st' = [st EXCEPT !.pc = "run", !.all = Entries(File.root)] /\ ev' = <<>> /\ UNCHANGED sc
Enter ==
  /\ More /\ st.i <= Len(All) /\ st.j = 0
  /\ st' = [st EXCEPT !.j = 1] /\ ev' = <<Title(All[st.i])>> /\ UNCHANGED sc
Value ==
  /\ More /\ st.i <= Len(All) /\ st.j > 0
  /\ LET e == All[st.i]
     IN IF st.j > Len(e.key.v) THEN st' = [st EXCEPT !.i = @ + 1, !.j = 0] /\ ev' = <<>> /\ UNCHANGED sc
        ELSE IF ~Readable(e.key.v[st.j]) THEN End("ParseError")
        ELSE st' = [st EXCEPT !.j = @ + 1] /\ ev' = ValueEv(e.kind, e.key.v[st.j]) /\ UNCHANGED sc
Last == More /\ st.i > Len(All) /\ End("ok")
Finish == st.pc = "open" /\ st.f > Len(R.files) /\ st' = [st EXCEPT !.pc = "done"] /\ ev' = <<>> /\ UNCHANGED sc
Next == Refuse \/ Open \/ Enter \/ Value \/ Last \/ Finish
Done == st.pc = "done"
Outcomes == {"ok"}
-----------------------------------------------------------------------------
(* a name has no more than one meaning                                         *)
OneMeaning == More => \A i \in 1..Len(All) : Cardinality(Splits(All[i].key.n)) <= 1
=============================================================================
