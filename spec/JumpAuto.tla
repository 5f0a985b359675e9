------------------------------- MODULE JumpAuto -------------------------------
(* Automatic Destinations Jump List: an OLECF file with a DestList stream    *)
(* (a header and entries) and a LNK file in every other stream.             *)
EXTENDS Text
(* Src: the streams of the root item in the order of the OLECF library:     *)
(* [n: name, d: data, ok: whether the data is a LNK file]; Opened: whether  *)
(* the file is an OLECF file at all                                         *)
CONSTANTS Src(_), Opened(_)
VARIABLES sc, st, ev
vars == <<sc, st, ev>>
SS == Src(sc)
DEST == Lit("DestList")
Has == \E i \in 1..Len(SS) : SS[i].n = DEST
D == SS[CHOOSE i \in 1..Len(SS) : SS[i].n = DEST].d

InitSt == st = [pc |-> "open", o |-> 0, ver |-> 0, i |-> 1] /\ ev = <<>>
Fail == st' = [st EXCEPT !.pc = "fail"] /\ ev' = <<>>

HEADER == <<Field("Format version", 0, 4, "dec"), Field("Number of entries", 4, 4, "dec"), Field("Number of pinned entries", 8, 4, "dec"),
            Field("Unknown1", 12, 4, "f32"), Field("Last entry number", 16, 4, "dec"), Field("Unknown2", 20, 4, "hex8"),
            Field("Last revision number", 24, 4, "dec"), Field("Unknown3", 28, 4, "hex8")>>
(* the path of an entry: a counted UTF-16 string                             *)
Path(o, n) == Utf16(Sub(D, o, 2 * n))
ENTRY == <<Field("Unknown1", 0, 8, "hex8"), Field("Droid volume identifier", 8, 16, "guid"), Field("Droid file identifier", 24, 16, "guid"),
           Field("Birth droid volume identifier", 40, 16, "guid"), Field("Birth droid file identifier", 56, 16, "guid"),
           Field("Hostname", 72, 16, "rstr"), Field("Entry number", 88, 4, "dec"), Field("Unknown2", 92, 4, "hex8"), Field("Unknown3", 96, 4, "f32"),
           Field("Last modification time", 100, 8, "filetime"), Field("Pin status", 108, 4, "sdec")>>
ENTRY2 == ENTRY \o <<Field("Unknown4", 112, 4, "sdec"), Field("Unknown5", 116, 4, "hex8"), Field("Unknown6", 120, 8, "hex8")>>

OpenFile ==
  /\ st.pc = "open"
  /\ IF ~Opened(sc) \/ ~Has THEN Fail
     ELSE st' = [st EXCEPT !.pc = IF Len(D) = 0 THEN "streams" ELSE "header"] /\ ev' = <<>>
  /\ UNCHANGED sc
ReadHeader ==
  /\ st.pc = "header"
  /\ IF ~Fits(D, 0, 32) THEN Fail
     ELSE LET v == LEi(D, 0, 4) IN
          /\ st' = IF v \in 1..4 THEN [st EXCEPT !.pc = "entry", !.o = 32, !.ver = v] ELSE [st EXCEPT !.pc = "fail"]
          /\ ev' = <<At("dest list header", 0)>> \o Fields(D, 0, FALSE, HEADER)
  /\ UNCHANGED sc
ReadEntry ==
  /\ st.pc = "entry"
  /\ LET o == st.o
         two == st.ver >= 2
         at == o + (IF two THEN 128 ELSE 112)
         n == LEi(D, at, 2)
         p == Path(at + 2, n)
         end == at + 2 + 2 * n + (IF two THEN 4 ELSE 0)
     IN IF o >= Len(D) THEN st' = [st EXCEPT !.pc = "streams"] /\ ev' = <<>>
        ELSE IF ~Fits(D, at, 2) \/ ~Fits(D, at + 2, 2 * n) \/ end > Len(D) \/ ~IsAscii(Sub(D, o + 72, 16)) \/ ~p[1] THEN Fail
        ELSE /\ st' = [st EXCEPT !.o = end]
             /\ ev' = <<At(IF two THEN "dest list entry v2" ELSE "dest list entry v1", o)>> \o Fields(D, o, FALSE, IF two THEN ENTRY2 ELSE ENTRY)
                      \o <<Ln("Path size", DecI(n) \o Lit(" characters (") \o DecI(2 * n) \o Lit(" bytes)")), Ln("Path", RStrip0(p[2]))>>
                      \o (IF two THEN <<Ln("Unknown7", Hex(LE(D, end - 4, 4), 8))>> ELSE <<>>)
  /\ UNCHANGED sc
(* every other stream is a jump list entry, named after the stream          *)
ReadStream ==
  /\ st.pc = "streams"
  /\ IF st.i > Len(SS) THEN st' = [st EXCEPT !.pc = "done"] /\ ev' = <<>>
     ELSE LET s == SS[st.i] IN
          IF s.n = DEST THEN st' = [st EXCEPT !.i = @ + 1] /\ ev' = <<>>
          ELSE /\ st' = IF s.ok THEN [st EXCEPT !.i = @ + 1] ELSE [st EXCEPT !.pc = "fail"]
               /\ ev' = <<[k |-> "text", v |-> Lit("Reading LNK file from stream: ") \o s.n]>>
                        \o (IF s.ok THEN <<[k |-> "!entry", id |-> s.n, flags |-> LE(s.d, 24, 4), size |-> LE(s.d, 52, 4)]>> ELSE <<>>)
  /\ UNCHANGED sc
Next == OpenFile \/ ReadHeader \/ ReadEntry \/ ReadStream
Done == st.pc \in {"done", "fail"}
Outcomes == IF st.pc = "done" THEN {"ok"} ELSE {"ParseError"}
-----------------------------------------------------------------------------
(* the DestList stream is read to its end: entries cover it                 *)
Covers == st.pc = "done" => Has /\ (Len(D) = 0 \/ st.o = Len(D))
AllLnk == st.pc = "done" => \A i \in 1..Len(SS) : SS[i].n = DEST \/ SS[i].ok
=============================================================================
