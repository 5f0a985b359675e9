----------------------------- MODULE RpChangeMC -----------------------------
(* Up to MaxEntries entries with up to MaxSubs sub records of every kind,   *)
(* and one fault: a wrong size, type, signature, version or copy of a size, *)
(* or a truncation.                                                         *)
EXTENDS RpChange, Json
CONSTANTS MaxEntries, MaxSubs, Faults
MCSrc(x) == x.src
Kinds == {"path", "short", "acl", "open", "zero", "big"}
Z16(s) == FlatSeq([i \in 1..Len(s) |-> <<s[i], 0>>]) \o <<0, 0>>
SubRec(k) == CASE k = "path" -> EncLE(14, 4) \o EncLE(4, 4) \o Z16(<<65, 66>>)
               [] k = "short" -> EncLE(12, 4) \o EncLE(9, 4) \o Z16(<<>>) \o <<0, 0>>
               [] k = "acl" -> EncLE(13, 4) \o EncLE(6, 4) \o <<1, 2, 3, 4, 5>>
               [] k = "open" -> EncLE(12, 4) \o EncLE(5, 4) \o <<65, 0, 66, 0>>
               [] k = "zero" -> EncLE(0, 4) \o EncLE(7, 4)
               [] OTHER -> EncLE(90, 4) \o EncLE(8, 4)
Subs == UNION {[1..n -> Kinds] : n \in 0..MaxSubs}
Entry(name, subs, d, c, t, g) ==
  LET body == Z16(name) \o FlatSeq([i \in 1..Len(subs) |-> SubRec(subs[i])])
      n == 72 + Len(body) + 4
  IN EncLE(MaxOf(0, n + d), 4) \o EncLE(t, 4) \o (IF g = 1 THEN <<0, 0, 0, 0>> ELSE RecordSig) \o EncLE(33 + 65536, 4) \o EncLE(18, 4) \o EncLE(32, 4)
     \o EncLE(5, 8) \o Zeros(32) \o EncLE(Len(name), 4) \o EncLE(9, 4) \o body \o EncLE(n + c, 4)
Header(d, c, t, v, w) ==
  LET path == FlatSeq([i \in 1..2 |-> <<67, 0>>]) \o <<0, 0>>
      vol == EncLE(8 + Len(path) + w, 4) \o EncLE(IF t = 2 THEN 3 ELSE 2, 4) \o path
      n == 16 + Len(vol) + 4
  IN EncLE(MaxOf(0, n + d), 4) \o EncLE(IF t = 1 THEN 1 ELSE 0, 4) \o RecordSig \o EncLE(2 + v, 4) \o vol \o EncLE(n + c, 4)
Good == Header(0, 0, 0, 0, 0)
Scen == [f : Faults, es : UNION {[1..n -> Subs] : n \in 0..MaxEntries}]
Names3 == <<<<65>>, <<>>, <<66, 67>>>>
Body(s) == FlatSeq([i \in 1..Len(s.es) |->
             LET last == i = Len(s.es)
                 is(x) == last /\ s.f = x
             IN Entry(Names3[i], s.es[i], (IF is("size+") THEN 4 ELSE IF is("size-") THEN -4 ELSE IF is("size0") THEN -500 ELSE 0),
                      IF is("copy") THEN 1 ELSE 0, IF is("type") THEN 2 ELSE 1, IF is("sig") THEN 1 ELSE 0)])
Head0(s) == CASE s.f = "hsize+" -> Header(2, 0, 0, 0, 0) [] s.f = "hsize0" -> Header(-400, 0, 0, 0, 0) [] s.f = "hcopy" -> Header(0, 1, 0, 0, 0)
              [] s.f = "htype" -> Header(0, 0, 1, 0, 0) [] s.f = "vtype" -> Header(0, 0, 2, 0, 0) [] s.f = "version" -> Header(0, 0, 0, 1, 0)
              [] s.f = "vsize+" -> Header(0, 0, 0, 0, 2) [] s.f = "vsize-" -> Header(0, 0, 0, 0, -1) [] s.f = "vsize0" -> Header(0, 0, 0, 0, -6)
              [] OTHER -> Good
MkSrc(s) == LET a == Head0(s) \o Body(s) IN IF s.f = "cut" THEN SubSeq(a, 1, Len(a) - 3) ELSE a
MCInit == (\E s \in Scen : sc = [s |-> s, src |-> MkSrc(s)]) /\ InitSt
MCSpec == MCInit /\ [][Next]_vars /\ WF_vars(Next)
Terminates == <>Done
AllEntries == (st.pc = "done" /\ sc.s.f \in {"none", "size+", "size-", "size0", "copy", "type", "sig", "cut"}) => Len(st.list) = Len(sc.s.es)
MCDump == Done => PrintT("SCEN " \o ToJson([src |-> F]))
=============================================================================
