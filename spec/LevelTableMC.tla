---------------------------- MODULE LevelTableMC -----------------------------
(* A writer that builds tables of the given sorted keys with and without    *)
(* prefix compression, in one or two data blocks, and single damages.       *)
EXTENDS LevelTable, Json
CONSTANTS KeySets, Restart, Damage, Kinds
FewKeys == {<<>>, <<<<>>>>, <<<<1>>>>, <<<<1>>, <<1, 2>>, <<1, 2, 3>>>>, <<<<39>>, <<39, 34>>, <<92, 13>>, <<200>>>>, <<<<5, 6, 7>>, <<5, 6, 7>>, <<5>>>>}
KeyPool == {<<>>, <<1>>, <<1, 2>>, <<1, 3>>, <<39>>}
ManyKeys == FewKeys \cup UNION {[1..n -> KeyPool] : n \in 0..3}
MCSrc(x) == x.src
MCUnz(x) == <<>>
MCKind(x) == x.s.kind

Suffix(i) == <<i % 2, i, 1, 0, 0, 0, 0, 0>>
KeyOf(k, i) == <<0, 1, 1, 1>> \o k \o Suffix(i)
RECURSIVE Common(_, _)
Common(a, b) == IF Len(a) = 0 \/ Len(b) = 0 THEN 0 ELSE IF a[1] # b[1] THEN 0 ELSE 1 + Common(Tail(a), Tail(b))
RECURSIVE Entries(_, _, _, _)
Entries(ks, vs, i, every) ==
  IF i > Len(ks) THEN <<>>
  ELSE LET c == IF (i - 1) % every = 0 THEN 0 ELSE Common(ks[i - 1], ks[i]) IN
       <<c, Len(ks[i]) - c, Len(vs[i])>> \o SubSeq(ks[i], c + 1, Len(ks[i])) \o vs[i] \o Entries(ks, vs, i + 1, every)
Table(ks, vs, every, r) == Entries(ks, vs, 1, every) \o FlatSeq([j \in 1..r |-> <<0, 0, 0, 0>>]) \o EncLE(r, 4)
Block(t, c) == t \o <<c, 1, 2, 3, 4>>
Keys(s) == [i \in 1..Len(s.ks) |-> KeyOf(s.ks[i], i)]
Vals(s) == [i \in 1..Len(s.ks) |-> [j \in 1..i |-> 64 + i]]
MkSrc(s) ==
  LET t == Table(Keys(s), Vals(s), s.every, 1)
      b1 == Block(t, IF s.d = "type" THEN 3 ELSE 0)
      size == Len(t) + (IF s.d = "size" THEN 1 ELSE IF s.d = "small" THEN -5 ELSE IF s.d = "tiny" THEN 3 - Len(t) ELSE 0)
      h1 == <<0, size>>
      ix == Table(IF s.two THEN <<<<255>> \o Suffix(1), <<255>> \o Suffix(2)>> ELSE <<<<255>> \o Suffix(1)>>,
                  IF s.two THEN <<h1, h1>> ELSE <<IF s.d = "handle" THEN <<128>> ELSE h1>>, 1, IF s.d = "restart" THEN 40 ELSE 1)
      ix2 == IF s.d = "restart" THEN SubSeq(ix, 1, Len(ix) - 160) \o SubSeq(ix, Len(ix) - 3, Len(ix)) ELSE ix
      io == Len(b1)
      body == b1 \o Block(ix2, 0)
      f == <<0, 2>> \o <<io, Len(ix2) + (IF s.d = "index" THEN 100 ELSE 0)>>
  IN body \o f \o Zeros(40 - Len(f)) \o (IF s.d = "magic" THEN <<0>> ELSE <<87>>) \o Tail(MAGIC)
Scen == [ks : KeySets, every : Restart, two : BOOLEAN, d : Damage, kind : Kinds]
MCInit == (\E s \in Scen : sc = [s |-> s, src |-> MkSrc(s)]) /\ InitSt
MCSpec == MCInit /\ [][Next]_vars /\ WF_vars(Next)
Terminates == <>Done
(* what was written is given out, whatever the compression of the keys      *)
ReadBack == st.pc = "done" /\ sc.s.d = "none" => st.n = Len(sc.s.ks) * (IF sc.s.two THEN 2 ELSE 1)
SameKeys == st.pc = "give" /\ sc.s.d = "none" /\ Len(st.es) = Len(sc.s.ks)
            => \A i \in 1..Len(st.es) : st.es[i].key \o Suffix(i) = Keys(sc.s)[i] /\ st.es[i].value = Vals(sc.s)[i]
NoFailure == sc.s.d = "none" => st.pc # "fail"
MCDump == Done => PrintT("SCEN " \o ToJson([src |-> F, kind |-> sc.s.kind]))
=============================================================================
