--------------------------------- MODULE Wemf ---------------------------------
(* Windows Metafile (WMF) and Enhanced Metafile (EMF): a header and records  *)
(* up to the end of the file.                                                *)
EXTENDS Text, WemfNames
CONSTANTS Src(_), Kind(_)
VARIABLES sc, st, ev
vars == <<sc, st, ev>>
F == Src(sc)
EMF == Kind(sc) = "emf"

Named(table, b) == LET hi == Sat(ShrN(b, 16))
                       lo == Sat(Norm(SubSeq(b, 1, IF Len(b) < 2 THEN Len(b) ELSE 2)))
                       hits == {i \in 1..Len(table) : table[i][1] = hi /\ table[i][2] = lo}
                   IN IF hits = {} THEN <<>> ELSE Lit(table[CHOOSE i \in hits : TRUE][3])
NameOr(table, b) == LET n == Named(table, b) IN IF n = <<>> THEN Lit("UNKNOWN") ELSE n
Paren(t) == <<32, 40>> \o t \o <<41>>

InitSt == st = [pc |-> "start", o |-> 0, n |-> 0] /\ ev = <<>>
Fail == st' = [st EXCEPT !.pc = "fail"] /\ ev' = <<>>

ReadEmfHeader ==
  /\ st.pc = "start" /\ EMF
  /\ LET size == LEi(F, 4, 4) IN
     IF ~Fits(F, 0, 108) \/ size < 88 THEN Fail
     ELSE /\ st' = [st EXCEPT !.pc = "record", !.o = size]
          /\ ev' = <<At("file header", 0), Ln("Record type", Hex(LE(F, 0, 4), 4) \o Paren(NameOr(EmfTypes, LE(F, 0, 4))))>>
                   \o Fields(F, 0, FALSE, <<Field("Record size", 4, 4, "dec"), Field("Signature", 40, 4, "hex4"), Field("Format version", 44, 4, "hex4"),
                                            Field("File size", 48, 4, "dec"), Field("Number of records", 52, 4, "dec"), Field("Number of handles", 56, 2, "dec"),
                                            Field("Unknown (reserved)", 58, 2, "hex4"), Field("Description string size", 60, 4, "dec"), Field("Description string offset", 64, 4, "hex4")>>)
  /\ UNCHANGED sc
PLACEABLE == <<215, 205, 198, 154>>
ReadPlaceable ==
  /\ st.pc = "start" /\ ~EMF
  /\ IF ~Fits(F, 0, 4) THEN Fail
     ELSE IF Sub(F, 0, 4) # PLACEABLE THEN st' = [st EXCEPT !.pc = "header"] /\ ev' = <<>>
     ELSE IF ~Fits(F, 0, 22) THEN Fail
     ELSE /\ st' = [st EXCEPT !.pc = "header", !.o = 22]
          /\ ev' = <<At("placeable", 0)>> \o Fields(F, 0, FALSE, <<Field("Signature", 0, 4, "hex8"), Field("Resource handle", 4, 2, "hex4"), Field("Bounding box", 6, 8, "dump"),
                     Field("Number of units per inch", 14, 2, "dec"), Field("Unknown1", 16, 4, "hex8"), Field("Checksum", 20, 2, "hex4")>>)
  /\ UNCHANGED sc
ReadWmfHeader ==
  /\ st.pc = "header"
  /\ LET o == st.o IN
     IF ~Fits(F, o, 18) \/ LEi(F, o, 2) \notin {1, 2} \/ LEi(F, o + 2, 2) # 9 THEN Fail
     ELSE /\ st' = [st EXCEPT !.pc = "record", !.o = o + 18]
          /\ ev' = <<At("header", o)>> \o Fields(F, o, FALSE, <<Field("File type", 0, 2, "hex4"), Field("Record size", 2, 2, "dec"), Field("Format version", 4, 2, "dec"),
                     Field("File size lower", 6, 2, "dec"), Field("File size upper", 8, 2, "dec"), Field("Maximum number of object", 10, 2, "dec"),
                     Field("Largest record size", 12, 4, "dec"), Field("Number of records", 16, 2, "dec")>>)
  /\ UNCHANGED sc

(* what is known about the data of a record type: the size it needs and what *)
(* is shown of it                                                            *)
XY(o) == Fields(F, o, FALSE, <<Field("X coordinate", 0, 2, "dec"), Field("Y coordinate", 2, 2, "dec")>>)
EmfNeeds(t) == IF t \in {<<24>>, <<37>>} THEN 4 ELSE 0
EmfShows(t, o) ==
  LET v == LE(F, o, 4)
      n == Named(EmfObjects, v)
  IN CASE t = <<24>> -> <<Ln("Color", Hex(v, 4))>>
       [] t = <<37>> -> <<Ln("Object identifier", Hex(v, 8) \o (IF n = <<>> THEN <<>> ELSE Paren(n)))>>
       [] OTHER -> <<>>
WmfNeeds(t) == CASE t \in {<<3, 1>>, <<7, 1>>, <<39, 1>>} -> 2 [] t \in {<<11, 2>>, <<12, 2>>} -> 4 [] t = <<65, 11>> -> 20 [] OTHER -> 0
WmfShows(t, o) ==
  LET v == LE(F, o, 2)
      r == LE(F, o, 4)
  IN CASE t = <<3, 1>> -> <<Ln("Map mode", Hex(v, 4) \o Paren(NameOr(MapModes, v)))>>
       [] t = <<7, 1>> -> <<Ln("Stretch mode", Hex(v, 4) \o Paren(NameOr(StretchModes, v)))>>
       [] t = <<39, 1>> -> <<Ln("Number of saved device context", Dec(v))>>
       [] t \in {<<11, 2>>, <<12, 2>>} -> XY(o)
       [] t = <<65, 11>> -> <<Ln("Raster operation", Hex(r, 8) \o Paren(NameOr(RasterOperations, r)))>>
             \o Fields(F, o + 4, FALSE, <<Field("Source height", 0, 2, "dec"), Field("Source width", 2, 2, "dec"), Field("Source X coordinate", 4, 2, "dec"), Field("Source Y coordinate", 6, 2, "dec"),
                  Field("Destination height", 8, 2, "dec"), Field("Destination width", 10, 2, "dec"), Field("Destination X coordinate", 12, 2, "dec"), Field("Destination Y coordinate", 14, 2, "dec")>>)
       [] OTHER -> <<>>
Data(o, n) == IF n > 0 THEN <<Hexd("Record data", Sub(F, o, n))>> ELSE <<>>
ReadEmfRecord ==
  /\ st.pc = "record" /\ EMF /\ st.o < Len(F)
  /\ LET o == st.o
         t == LE(F, o, 4)
         size == LEi(F, o + 4, 4)
     IN IF ~Fits(F, o, 8) \/ size < 8 \/ ~Fits(F, o, size) \/ size - 8 < EmfNeeds(t) THEN Fail
        ELSE /\ st' = [st EXCEPT !.o = o + size, !.n = @ + 1]
             /\ ev' = <<At("record header", o), Ln("Record type", Hex(t, 4) \o Paren(NameOr(EmfTypes, t))), Ln("Record size", DecI(size))>> \o Data(o + 8, size - 8) \o EmfShows(t, o + 8)
  /\ UNCHANGED sc
ReadWmfRecord ==
  /\ st.pc = "record" /\ ~EMF /\ st.o < Len(F)
  /\ LET o == st.o
         t == LE(F, o + 4, 2)
         words == LEi(F, o, 4)
         size == 2 * words
     IN IF ~Fits(F, o, 6) \/ words < 3 \/ words > Len(F) THEN Fail
        ELSE IF ~Fits(F, o, size) \/ size - 6 < WmfNeeds(t) THEN Fail
        ELSE /\ st' = [st EXCEPT !.o = o + size, !.n = @ + 1]
             /\ ev' = <<At("record header", o), Ln("Record size", DecI(words) \o Paren(DecI(size) \o Lit(" bytes"))), Ln("Record type", Hex(t, 4) \o Paren(NameOr(WmfTypes, t)))>>
                      \o Data(o + 6, size - 6) \o WmfShows(t, o + 6)
  /\ UNCHANGED sc
Finish ==
  /\ st.pc = "record" /\ st.o >= Len(F)
  /\ st' = [st EXCEPT !.pc = "done"] /\ ev' = <<>>
  /\ UNCHANGED sc
Next == ReadEmfHeader \/ ReadPlaceable \/ ReadWmfHeader \/ ReadEmfRecord \/ ReadWmfRecord \/ Finish
Done == st.pc \in {"done", "fail"}
Outcomes == IF st.pc = "done" THEN {"ok"} ELSE {"ParseError"}
-----------------------------------------------------------------------------
(* every byte after the header belongs to one record, and reading moves on   *)
Covered == st.pc = "done" /\ st.n > 0 => st.o = Len(F)
Progress == [][st'.n > st.n => st'.o > st.o]_vars
=============================================================================
