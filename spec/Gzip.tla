-------------------------------- MODULE Gzip ---------------------------------
(* GZip file: members one after the other, each a header with optional      *)
(* fields, a DEFLATE stream and a footer.  Inf gives, for every offset, the *)
(* offset after the DEFLATE stream that starts there, or -1 if there is no  *)
(* complete stream.                                                         *)
EXTENDS Text
CONSTANT Src(_), Inf(_)
VARIABLES sc, st, ev
vars == <<sc, st, ev>>
F == Src(sc)

InitSt == st = [pc |-> "member", pos |-> 0, fl |-> 0, n |-> 0] /\ ev = <<>>
Fail == st' = [st EXCEPT !.pc = "fail"] /\ ev' = <<>>
Go(pc, pos, e) == st' = [st EXCEPT !.pc = pc, !.pos = pos] /\ ev' = e
Flag(b) == (st.fl \div b) % 2 = 1

HeaderTable ==
  << Field("Signature", 0, 2, "hex4"), Field("Compression method", 2, 1, "sdec"), Field("Flags", 3, 1, "hex2"),
     Field("Modification time", 4, 4, "sposix"), Field("Operating system", 9, 1, "dec"), Field("Compression flags", 8, 1, "hex2") >>
ReadHeader ==
  /\ st.pc = "member" /\ st.pos < Len(F)
  /\ LET p == st.pos IN
     IF ~Fits(F, p, 10) THEN Fail
     ELSE /\ ev' = <<At("member header", p)>> \o Fields(F, p, FALSE, HeaderTable)
          /\ st' = IF Sub(F, p, 3) = <<31, 139, 8>> THEN [st EXCEPT !.pc = "extra", !.pos = p + 10, !.fl = F[p + 4]] ELSE [st EXCEPT !.pc = "fail"]
  /\ UNCHANGED sc
ReadExtra ==
  /\ st.pc = "extra"
  /\ IF ~Flag(4) THEN Go("name", st.pos, <<>>)
     ELSE IF ~Fits(F, st.pos, 2) THEN Fail
     ELSE Go("name", st.pos + 2 + LEi(F, st.pos, 2), <<At("extra field data size", st.pos)>>)
  /\ UNCHANGED sc
(* a NUL-terminated string: the number of bytes before the NUL, or -1       *)
NulAt(o) == IF o >= Len(F) THEN -1 ELSE IndexOfVal(SubSeq(F, o + 1, Len(F)), 0) - 1
ReadText(pc, next, flag, what, label) ==
  /\ st.pc = pc
  /\ LET n == NulAt(st.pos) IN
     IF ~Flag(flag) THEN Go(next, st.pos, <<>>)
     ELSE IF n < 0 THEN Fail
     ELSE Go(next, st.pos + n + 1, <<At(what, st.pos), Ln(label, Sub(F, st.pos, n))>>)
  /\ UNCHANGED sc
ReadName == ReadText("name", "comment", 8, "original filename", "Original filename")
ReadComment == ReadText("comment", "crc", 16, "comment", "Comment")
ReadCrc == st.pc = "crc" /\ Go("data", IF Flag(2) THEN st.pos + 2 ELSE st.pos, <<>>) /\ UNCHANGED sc
ReadData ==
  /\ st.pc = "data"
  /\ IF st.pos >= Len(F) THEN Fail
     ELSE LET e == Inf(sc)[st.pos + 1] IN IF e < 0 THEN Fail ELSE Go("footer", e, <<>>)
  /\ UNCHANGED sc
ReadFooter ==
  /\ st.pc = "footer"
  /\ IF ~Fits(F, st.pos, 8) THEN Fail
     ELSE /\ st' = [st EXCEPT !.pc = "member", !.pos = @ + 8, !.n = @ + 1]
          /\ ev' = <<At("member footer", st.pos), Ln("Checksum", Hex(LE(F, st.pos, 4), 8)), Ln("Uncompressed data size", Dec(LE(F, st.pos + 4, 4)))>>
  /\ UNCHANGED sc
Finish == st.pc = "member" /\ st.pos >= Len(F) /\ Go("done", st.pos, <<>>) /\ UNCHANGED sc

Next == ReadHeader \/ ReadExtra \/ ReadName \/ ReadComment \/ ReadCrc \/ ReadData \/ ReadFooter \/ Finish
Done == st.pc \in {"done", "fail"}
Outcomes == IF st.pc = "done" THEN {"ok"} ELSE {"ParseError"}
-----------------------------------------------------------------------------
WholeFile == st.pc = "done" => st.pos = Len(F)
Forward == [][st'.pos >= st.pos]_vars
=============================================================================
