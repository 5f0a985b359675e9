-------------------------------- MODULE Alias --------------------------------
(* Mac OS login item alias data: a header with the size of the record, a     *)
(* version 2 or 3 record and tagged values up to the end of the record; the  *)
(* data of a tagged value is aligned to 2 bytes.                             *)
EXTENDS Text
CONSTANT Src(_)
VARIABLES sc, st, ev
vars == <<sc, st, ev>>
F == Src(sc)

InitSt == st = [pc |-> "header", off |-> 0, tags |-> <<>>] /\ ev = <<>>
Fail == st' = [st EXCEPT !.pc = "fail"] /\ ev' = <<>>
Version == BEi(F, 6, 2)

ReadHeader ==
  /\ st.pc = "header"
  /\ IF ~Fits(F, 0, 8) \/ Version \notin {2, 3} THEN Fail
     ELSE /\ st' = [st EXCEPT !.off = 8, !.pc = IF AllZero(Sub(F, 0, 4)) /\ BEi(F, 4, 2) = Len(F) THEN "record" ELSE "fail"]
          /\ ev' = <<At("record header", 0), Hexd("Application information", Sub(F, 0, 4)), Ln("Record size", DecI(BEi(F, 4, 2))), Ln("Format version", DecI(Version))>>
  /\ UNCHANGED sc

(* seconds since 1904 in 48 bits and 65536ths of a second in 16 bits         *)
Hfs64(o) ==
  LET raw == Sub(F, o, 8)
      secs == Norm(Rev(SubSeq(raw, 1, 6)))
      frac == raw[7] * 256 + raw[8]
      all == Norm(Rev(raw))
  IN IF all = <<>> THEN NotSet
     ELSE IF Len(secs) > 4 THEN Hex(all, 8)
     ELSE DateTimeText(secs, -24107) \o <<46>> \o ZeroPadI((frac * 125) \div 8192, 3) \o UTC

V2 == <<Field("Alias type", 0, 2, "dec"), Field("Volume name", 2, 28, "dump"), Field("Volume creation date and time", 30, 4, "hfs"),
        Field("File system type", 34, 2, "dump"), Field("Disk type", 36, 2, "dump"), Field("Parent file system identifier", 38, 4, "dec"),
        Field("Target name", 42, 64, "dump"), Field("Target file system identifier", 106, 4, "dec"), Field("Target creation date and time", 110, 4, "hfs")>>
V3Ev ==
  <<Ln("Alias type", DecI(BEi(F, 8, 2))), Ln("Volume creation date and time", Hfs64(10)), Hexd("File system type", Sub(F, 18, 4)),
    Ln("Disk type", DecI(BEi(F, 22, 2))), Ln("Parent file system identifier", Dec(BE(F, 24, 4))), Ln("Target file system identifier", Dec(BE(F, 28, 4))),
    Ln("Target creation date and time", Hfs64(32)), Ln("Volume flags", Hex(BE(F, 40, 4), 4)), Hexd("Unknown1", Sub(F, 44, 14))>>
ReadRecord ==
  /\ st.pc = "record"
  /\ IF ~Fits(F, 8, IF Version = 2 THEN 114 ELSE 50) THEN Fail
     ELSE /\ st' = [st EXCEPT !.off = IF Version = 2 THEN 150 ELSE 58, !.pc = "tags"]
          /\ ev' = <<At("record data", 8)>> \o (IF Version = 2 THEN Fields(F, 8, TRUE, V2) ELSE V3Ev)
  /\ UNCHANGED sc

Tag == BEi(F, st.off, 2)
Size == BEi(F, st.off + 2, 2)
Data == Sub(F, st.off + 4, Size)
PadSize == Size % 2
Kind == IF Tag = 1 THEN "ints" ELSE IF Tag \in {0, 2, 6, 18, 19} THEN "utf8" ELSE IF Tag \in {14, 15} THEN "utf16" ELSE "data"
Count == Data[1] * 256 + Data[2]
Swap(s) == [i \in 1..Len(s) |-> IF i % 2 = 1 THEN s[i + 1] ELSE s[i - 1]]
String == IF Kind = "utf8" THEN Utf8(Data) ELSE Utf16(Swap(SubSeq(Data, 3, Len(Data))))
TagOk == /\ Fits(F, st.off, 4)
         /\ Fits(F, st.off + 4, Size + PadSize)
         /\ CASE Kind = "ints" -> Size % 4 = 0
              [] Kind = "utf8" -> String[1]
              [] Kind = "utf16" -> Size >= 2 /\ Size = 2 + 2 * Count /\ String[1]
              [] OTHER -> TRUE
RECURSIVE Commas(_)
Commas(s) == IF Len(s) = 0 THEN <<>>
             ELSE Dec(Norm(<<s[4], s[3], s[2], s[1]>>)) \o (IF Len(s) > 4 THEN <<44, 32>> \o Commas(SubSeq(s, 5, Len(s))) ELSE <<>>)
ReadTag ==
  /\ st.pc = "tags" /\ st.off < Len(F)
  /\ IF ~TagOk THEN Fail
     ELSE /\ st' = [st EXCEPT !.off = @ + 4 + Size + PadSize, !.tags = Append(@, st.off)]
          /\ ev' = <<At("tagged value", st.off), Ln("Value tag", Hex(Nat2(Tag), 4)), Ln("Value data size", DecI(Size))>>
                   \o (CASE Kind = "ints" -> <<Ln("Integers", Commas(Data))>>
                         [] Kind = "utf8" -> <<Ln("String", RStrip0(String[2]))>>
                         [] Kind = "utf16" -> <<Ln("Number of characters", DecI(Count)), Ln("String", RStrip0(String[2]))>>
                         [] OTHER -> <<Hexd("Value data", Data)>>)
                   \o <<Hexd("Alignment padding", Sub(F, st.off + 4 + Size, PadSize))>>
  /\ UNCHANGED sc

Finish ==
  /\ st.pc = "tags" /\ st.off >= Len(F)
  /\ st' = [st EXCEPT !.pc = "done"] /\ ev' = <<>>
  /\ UNCHANGED sc

Next == ReadHeader \/ ReadRecord \/ ReadTag \/ Finish
Done == st.pc \in {"done", "fail"}
Outcomes == IF st.pc = "done" THEN {"ok"} ELSE {"ParseError"}
-----------------------------------------------------------------------------
(* the tagged values fill what remains of the record                         *)
Tiled == st.pc = "done" =>
  LET n == Len(st.tags)
      End(o) == o + 4 + BEi(F, o + 2, 2) + (BEi(F, o + 2, 2) % 2)
  IN n > 0 => st.tags[1] = (IF Version = 2 THEN 150 ELSE 58) /\ End(st.tags[n]) = Len(F) /\ \A i \in 1..(n - 1) : End(st.tags[i]) = st.tags[i + 1]
Sized == st.pc = "done" => BEi(F, 4, 2) = Len(F)
=============================================================================
