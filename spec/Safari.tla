------------------------------- MODULE Safari -------------------------------
(* Safari Cookies.binarycookies: a big-endian header with the page sizes,   *)
(* little-endian pages of records that refer to strings inside the page.    *)
EXTENDS Text
CONSTANT Src(_)
VARIABLES sc, st, ev
vars == <<sc, st, ev>>
F == Src(sc)

InitSt == st = [pc |-> "header", p |-> 0, r |-> 0, s |-> 0, off |-> 0] /\ ev = <<>>
Fail == st' = [st EXCEPT !.pc = "fail"] /\ ev' = <<>>

NPages == BEi(F, 4, 4)
PageSize(i) == BEi(F, 8 + 4 * (i - 1), 4)
RECURSIVE SumSizes(_)
SumSizes(k) == IF k = 0 THEN 0 ELSE LET r == SumSizes(k - 1) IN IF r >= BIG THEN BIG ELSE r + PageSize(k)

ReadHeader ==
  /\ st.pc = "header"
  /\ IF ~Fits(F, 0, 8) \/ Sub(F, 0, 4) # <<99, 111, 111, 107>> \/ NPages >= Len(F) \/ ~Fits(F, 8, 4 * NPages) THEN Fail
     ELSE /\ st' = [st EXCEPT !.pc = "page", !.p = 1, !.off = 8 + 4 * NPages]
          /\ ev' = <<At("file header", 0), Ln("Signature", Lit("b'cook'")), Ln("Number of pages", DecI(NPages)),
                     Hexd("Page sizes data", Sub(F, 8, 4 * NPages))>>
                   \o [i \in 1..NPages |-> Ln(StrOf(Lit("Page: ") \o DecI(i - 1) \o Lit(" size")), Dec(BE(F, 4 + 4 * i, 4)))]
  /\ UNCHANGED sc

Page == Sub(F, st.off, PageSize(st.p))
NRecs == LEi(Page, 4, 4)
RecOff(i) == LEi(Page, 8 + 4 * (i - 1), 4)

ReadPage ==
  /\ st.pc = "page" /\ st.p <= NPages
  /\ IF ~Fits(F, st.off, PageSize(st.p)) \/ ~Fits(Page, 0, 8) \/ NRecs >= Len(Page) \/ ~Fits(Page, 8, 4 * NRecs) THEN Fail
     ELSE /\ st' = [st EXCEPT !.pc = "record", !.r = 1, !.s = 0]
          /\ ev' = <<Hexd("Page header data", Sub(Page, 0, 8 + 4 * NRecs)),
                     Ln("Signature", Hex(LE(Page, 0, 4), 8)), Ln("Number of records", DecI(NRecs))>>
                   \o [i \in 1..NRecs |-> Ln(StrOf(Lit("Record: ") \o DecI(i - 1) \o Lit(" offset")), Dec(LE(Page, 4 + 4 * i, 4)))]
  /\ UNCHANGED sc

NextPage ==
  /\ st.pc = "record" /\ st.r > NRecs
  /\ st' = [st EXCEPT !.pc = "page", !.p = @ + 1, !.r = 0, !.off = @ + PageSize(st.p)] /\ ev' = <<>>
  /\ UNCHANGED sc

RecordTable ==
  << Field("Size", 0, 4, "dec"), Field("Unknown1", 4, 4, "hex8"), Field("Flags", 8, 4, "hex8"),
     Field("Unknown2", 12, 4, "hex8"), Field("URL offset", 16, 4, "dec"), Field("Name offset", 20, 4, "dec"),
     Field("Path offset", 24, 4, "dec"), Field("Value offset", 28, 4, "dec"), Field("Unknown3", 32, 8, "hex8"),
     Field("Expiration time", 40, 8, "cocoa"), Field("Creation time", 48, 8, "cocoa") >>
Labels == <<"URL", "Name", "Path", "Value">>

ReadRecord ==
  /\ st.pc = "record" /\ st.r <= NRecs /\ st.s = 0
  /\ LET o == RecOff(st.r) IN
     IF ~Fits(Page, o, 56) THEN Fail
     ELSE /\ st' = [st EXCEPT !.s = 1]
          /\ ev' = <<Hexd("Record data", LET n == LEi(Page, o, 4) IN Sub(Page, o, MinOf(n, Len(Page) - o)))>>
                   \o Fields(Page, o, FALSE, RecordTable)
  /\ UNCHANGED sc

(* url, name, path and value in this order; offset 0 means no string        *)
ReadString ==
  /\ st.pc = "record" /\ st.r <= NRecs /\ st.s > 0
  /\ LET o == RecOff(st.r)
         so == LEi(Page, o + 12 + 4 * st.s, 4)
         t == IF o + so >= Len(Page) THEN <<>> ELSE SubSeq(Page, o + so + 1, Len(Page))
         nul == IndexOfVal(t, 0)
         str == IF so = 0 THEN <<>> ELSE UpToNul(t)
     IN IF so # 0 /\ (nul = 0 \/ ~IsAscii(str)) THEN Fail
        ELSE /\ st' = IF st.s = 4 THEN [st EXCEPT !.r = @ + 1, !.s = 0] ELSE [st EXCEPT !.s = @ + 1]
             /\ ev' = <<Ln(Labels[st.s], str)>>
  /\ UNCHANGED sc

ReadFooter ==
  /\ st.pc = "page" /\ st.p > NPages
  /\ IF ~Fits(F, st.off, 8) THEN Fail
     ELSE st' = [st EXCEPT !.pc = "done"] /\ ev' = <<At("file footer", st.off)>>
  /\ UNCHANGED sc

Next == ReadHeader \/ ReadPage \/ NextPage \/ ReadRecord \/ ReadString \/ ReadFooter
Done == st.pc \in {"done", "fail"}
Outcomes == IF st.pc = "done" THEN {"ok"} ELSE {"ParseError"}
-----------------------------------------------------------------------------
(* every page lies right after the previous one and is read in full         *)
PagesTile == st.pc \in {"page", "record"} => st.off = 8 + 4 * NPages + SumSizes(st.p - 1)
Ordered == [][st'.pc # "fail" => (st'.p > st.p \/ (st'.p = st.p /\ st'.r >= st.r))]_vars
=============================================================================
