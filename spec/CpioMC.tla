------------------------------ MODULE CpioMC -------------------------------
(* Bounded exhaustive model of Cpio: every archive of up to MaxEntries     *)
(* entries, in all five formats, written by an independent encoder and cut  *)
(* at chosen points.  The terminal states are dumped as test inputs.        *)
EXTENDS Cpio, Json

CONSTANTS MaxEntries, Cuts

A(i) == 96 + i
PathSet == {<<A(1)>>, <<A(1), A(2)>>, <<A(1), A(2), A(3)>>, TRAILER}
SizeSet == {0, 1, 3, 4}
Entry == [path : PathSet, n : SizeSet]
Formats == {"bin-big-endian", "bin-little-endian", "odc", "newc", "crc"}

Scen == [fmt : Formats, ents : UNION {[1..k -> Entry] : k \in 0..MaxEntries}, cut : Cuts]

Data(i, n) == [j \in 1..n |-> 16 * i + j]

Enc(fmt, i, e, off) ==
  LET ps == Len(e.path) + 1
      mt == 1000 * i + 70000
      H == CASE fmt = "bin-big-endian" ->
                <<113, 199>> \o EncBE(9, 2) \o EncBE(i, 2) \o EncBE(33188, 2) \o EncBE(1000 + i, 2)
                 \o EncBE(2000 + i, 2) \o EncBE(1, 2) \o EncBE(0, 2) \o EncBE(mt, 4) \o EncBE(ps, 2) \o EncBE(e.n, 4)
             [] fmt = "bin-little-endian" ->
                <<199, 113>> \o EncLE(9, 2) \o EncLE(i, 2) \o EncLE(33188, 2) \o EncLE(1000 + i, 2)
                 \o EncLE(2000 + i, 2) \o EncLE(1, 2) \o EncLE(0, 2)
                 \o EncLE(mt \div 65536, 2) \o EncLE(mt % 65536, 2) \o EncLE(ps, 2)
                 \o EncLE(e.n \div 65536, 2) \o EncLE(e.n % 65536, 2)
             [] fmt = "odc" ->
                <<48, 55, 48, 55, 48, 55>> \o EncBase(9, 8, 6) \o EncBase(i, 8, 6) \o EncBase(33188, 8, 6)
                 \o EncBase(1000 + i, 8, 6) \o EncBase(2000 + i, 8, 6) \o EncBase(1, 8, 6) \o EncBase(0, 8, 6)
                 \o EncBase(mt, 8, 11) \o EncBase(ps, 8, 6) \o EncBase(e.n, 8, 11)
             [] OTHER ->
                <<48, 55, 48, 55, 48, IF fmt = "newc" THEN 49 ELSE 50>> \o EncBase(i, 16, 8) \o EncBase(33188, 16, 8)
                 \o EncBase(1000 + i, 16, 8) \o EncBase(2000 + i, 16, 8) \o EncBase(1, 16, 8) \o EncBase(mt, 16, 8)
                 \o EncBase(e.n, 16, 8) \o EncBase(8, 16, 8) \o EncBase(1, 16, 8) \o EncBase(0, 16, 8)
                 \o EncBase(0, 16, 8) \o EncBase(ps, 16, 8) \o EncBase(0, 16, 8)
      p1 == H \o e.path \o <<0>>
      p2 == p1 \o Zeros(Pad(off + Len(p1), Align(fmt)))
      p3 == p2 \o Data(i, e.n)
  IN p3 \o Zeros(Pad(off + Len(p3), Align(fmt)))

RECURSIVE EncAll(_, _, _, _)
EncAll(fmt, es, i, acc) ==
  IF i > Len(es) THEN acc ELSE EncAll(fmt, es, i + 1, acc \o Enc(fmt, i, es[i], Len(acc)))

MkSrc(s) == LET whole == EncAll(s.fmt, s.ents, 1, <<>>) IN
            IF s.cut = 0 THEN whole ELSE Sub(whole, 0, MaxOf(0, Len(whole) - s.cut))
MCSrc(x) == x.src
MCProbes(x) == <<[op |-> "exists", path |-> <<A(1)>>], [op |-> "get", path |-> <<A(1), A(2)>>],
                 [op |-> "prefix", path |-> <<A(1), A(2)>>]>>

MCInit == (\E s \in Scen : sc = [s |-> s, src |-> MkSrc(s)]) /\ InitSt
MCSpec == MCInit /\ [][Next]_vars /\ WF_vars(Next)

(* What the writer put in: the entries before the first trailer, first      *)
(* occurrence of each path.                                                 *)
RECURSIVE Want(_, _, _)
Want(es, i, acc) ==
  IF i > Len(es) \/ es[i].path = TRAILER THEN acc
  ELSE IF \E a \in 1..Len(acc) : acc[a].path = es[i].path THEN Want(es, i + 1, acc)
  ELSE Want(es, i + 1, Append(acc, [path |-> es[i].path, ino |-> Nat2(i), data |-> Data(i, es[i].n), uid |-> Nat2(1000 + i), mtime |-> Nat2(1000 * i + 70000)]))

RoundTrip == st.pc = "done" /\ sc.s.cut = 0 =>
  LET w == Want(sc.s.ents, 1, <<>>) IN
  /\ Len(st.ents) = Len(w)
  /\ \A i \in 1..Len(w) : /\ st.ents[i].path = w[i].path /\ st.ents[i].ino = w[i].ino
                          /\ st.ents[i].data = w[i].data /\ st.ents[i].uid = w[i].uid
                          /\ st.ents[i].mtime = w[i].mtime
WholeAccepted == st.pc = "fail" => sc.s.cut # 0 \/ Len(sc.s.ents) = 0
Terminates == <>Done
Dump == Done => PrintT("SCEN " \o ToJson([src |-> F]))
=============================================================================
