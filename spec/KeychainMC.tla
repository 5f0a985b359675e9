------------------------------ MODULE KeychainMC ------------------------------
EXTENDS Keychain, Json
CONSTANTS Formats, Names, Places, MaxColumns
MCSrc(x) == x.src
Hdr(size, key) == EncBE(size, 4) \o EncBE(1, 4) \o EncBE(1, 4) \o EncBE(0, 4) \o EncBE(key, 4) \o EncBE(0, 4)
Info(id, name, pad) == Hdr(40 + Len(name) + pad, 0) \o EncBE(33, 4) \o EncBE(37, 4) \o id \o EncBE(Len(name), 4) \o name \o Zeros(pad)
Index(rel) == Hdr(64, 0) \o EncBE(45, 4) \o EncBE(49, 4) \o EncBE(53, 4) \o EncBE(57, 4) \o EncBE(61, 4) \o rel \o EncBE(1, 4) \o EncBE(2, 4) \o EncBE(3, 4) \o EncBE(4, 4)
(* a schema attribute: relation, how it is named and its format             *)
Attr(rel, named, format) ==
  LET code == IF named = "raw" THEN <<97, 200, 98, 99>> ELSE <<97, 98, 99, 100>>
      str == IF named = "name" THEN EncBE(2, 4) \o <<110, 109>> ELSE <<>>
      body == rel \o code \o EncBE(0, 4) \o EncBE(format, 4) \o str
  IN Hdr(48 + Len(body), 0) \o EncBE(IF named = "orphan" THEN 0 ELSE 49, 4) \o EncBE(IF named = "none" THEN 0 ELSE 53, 4) \o EncBE(57, 4)
     \o EncBE(IF named = "name" THEN 65 ELSE 0, 4) \o EncBE(0, 4) \o EncBE(61, 4) \o body
REL == <<128, 0, 16, 0>>
Body(format) == CASE format = 0 -> EncBE(3, 4) \o <<120, 0, 121>> [] format = 5 -> [i \in 1..15 |-> 48] \o <<0>> [] format = 6 -> EncBE(3, 4) \o <<39, 0, 200>> [] OTHER -> EncBE(70000, 4)
Off(c, q, at, size) == CASE c[3] = "zero" -> 0 [] c[3] = "good" -> q + at + 1 [] c[3] = "before" -> q - 3 [] c[3] = "first" -> q + 1 [] c[3] = "edge" -> q + size + 1 [] OTHER -> q + size
RECURSIVE Before(_, _)
Before(cs, i) == IF i = 1 THEN 0 ELSE Len(Body(cs[i - 1][1])) + Before(cs, i - 1)
Rec(cs, key) ==
  LET n == Len(cs)
      q == 24 + 4 * n
      body == Zeros(key) \o FlatSeq([i \in 1..n |-> Body(cs[i][1])])
  IN Hdr(q + Len(body), key) \o FlatSeq([i \in 1..n |-> EncBE(Off(cs[i], q, key + Before(cs, i), Len(body)), 4)]) \o body
RECURSIVE Sizes(_, _)
Sizes(rs, i) == IF i = 0 THEN 0 ELSE Len(rs[i]) + Sizes(rs, i - 1)
Tbl(kind, rs, pad) ==
  LET n == Len(rs)
      q == 28 + 4 * n
      body == FlatSeq(rs)
  IN EncBE(q + Len(body) + pad, 4) \o kind \o EncBE(n, 4) \o EncBE(q, 4) \o Zeros(8) \o EncBE(n, 4) \o FlatSeq([i \in 1..n |-> EncBE(q + Sizes(rs, i - 1), 4)]) \o body \o Zeros(pad)
File(tbls, extra) ==
  LET n == Len(tbls)
      q == 8 + 4 * (n + extra)
      body == FlatSeq(tbls)
  IN Lit("kych") \o EncBE(1, 2) \o EncBE(0, 2) \o EncBE(16, 4) \o EncBE(20, 4) \o Zeros(4)
     \o EncBE(q + Len(body), 4) \o EncBE(n + extra, 4) \o FlatSeq([i \in 1..n |-> EncBE(q + Sizes(tbls, i - 1), 4)]) \o (IF extra = 1 THEN EncBE(900000, 4) ELSE <<>>) \o body
Cols == Formats \X Names \X Places
Scen == [cs : UNION {[1..k -> Cols] : k \in 0..MaxColumns}, shape : {"plain", "index", "stray", "noself", "late", "extra", "cut", "pad"}]
MkSrc(s) ==
  LET selfs == (IF s.shape = "noself" THEN <<>> ELSE <<Info(Zeros(4), <<105>>, 0)>>) \o <<Info(EncBE(1, 4), <<106>>, IF s.shape = "pad" THEN 3 ELSE 0), Info(EncBE(2, 4), <<>>, 0), Info(REL, <<114, 114>>, 0)>>
      info == Tbl(Zeros(4), selfs, IF s.shape = "pad" THEN 5 ELSE 0)
      index == Tbl(EncBE(1, 4), CASE s.shape = "index" -> <<Index(REL)>> [] s.shape = "stray" -> <<Index(EncBE(7, 4))>> [] OTHER -> <<>>, 0)
      attrs == Tbl(EncBE(2, 4), [i \in 1..Len(s.cs) |-> Attr(REL, s.cs[i][2], s.cs[i][1])], 0)
      recs == Tbl(REL, <<Rec(s.cs, IF s.shape = "pad" THEN 2 ELSE 0)>>, 0)
      d == File(IF s.shape = "late" THEN <<info, recs, attrs>> ELSE <<info, index, attrs, recs>>, IF s.shape = "extra" THEN 1 ELSE 0)
  IN SubSeq(d, 1, Len(d) - (IF s.shape = "cut" THEN 1 ELSE 0))
MCInit == (\E s \in Scen : sc = [s |-> s, src |-> MkSrc(s)]) /\ InitSt
MCSpec == MCInit /\ [][Next]_vars /\ WF_vars(Next)
Terminates == <>Done
(* the columns of a relation are the schema attributes that name it          *)
Columns == st.pc = "done" => \A i \in 1..Len(st.ts) :
   Len(st.ts[i].cols) = (IF st.ts[i].id = <<0, 16, 0, 128>> THEN Len(sc.s.cs) ELSE 0)
MCDump == Done => PrintT("SCEN " \o ToJson([src |-> F]))
=============================================================================
