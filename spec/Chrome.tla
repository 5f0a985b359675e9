------------------------------- MODULE Chrome --------------------------------
(* Chrome cache: an index file with a hash table of cache addresses, data   *)
(* block files whose blocks the addresses select, and the chains of cache   *)
(* entries that start in the table.  Src is a sequence of files (name and   *)
(* data), Kind how they are read: as a directory, with the parser for a     *)
(* single file, or with the reader of an index or data block file, in the   *)
(* last case followed by reading entries at the offsets Ops.                *)
EXTENDS Text
CONSTANT Src(_), Kind(_), Ops(_), Hdr(_)
VARIABLES sc, st, ev
vars == <<sc, st, ev>>
Files == Src(sc)
FileNos(name) == {i \in 1..Len(Files) : Files[i].name = name}
Data(i) == Files[i].data
INDEX == Lit("index")
CHAIN == 64
HDR == Hdr(sc)   \* the size of the header of a data block file

(* a cache address: 4 bytes                                                 *)
BlockSizes == <<36, 256, 1024, 4096>>
Addr(b) ==
  LET t == (b[4] % 128) \div 16
      zero == b = <<0, 0, 0, 0>>
      bs == BlockSizes[t]
      num == b[1] + 256 * b[2]
      none == <<-1>>
      base == [zero |-> zero, v |-> Norm(b), init |-> b[4] >= 128, type |-> t]
  IN IF zero \/ t > 4 THEN base @@ [name |-> <<>>, num |-> -1, off |-> -1, size |-> -1]
     ELSE IF t = 0 THEN base @@ [name |-> Lit("f_") \o HexRaw(Norm(<<b[1], b[2], b[3], b[4] % 16>>), 6), num |-> -1, off |-> -1, size |-> -1]
     ELSE base @@ [name |-> Lit("data_") \o DecI(b[3]), num |-> num, off |-> HDR + num * bs, size |-> (b[4] % 4) * bs]
TypeText(t) == CASE t = 0 -> "Separate file" [] t = 1 -> "Rankings block file" [] t = 2 -> "256 byte block file"
                 [] t = 3 -> "1024 byte block file" [] t = 4 -> "4096 byte block file" [] OTHER -> "Unknown"
AddrText(b) ==
  LET a == Addr(b)
      h == Hex(a.v, 8)
      x == h \o Lit(" (initialized: ") \o Lit(IF a.init THEN "True" ELSE "False") \o Lit(", file type: ") \o Lit(TypeText(a.type))
  IN IF a.zero THEN h \o Lit(" (uninitialized)")
     ELSE IF a.name = <<>> THEN x \o <<41>>
     ELSE IF a.type = 0 THEN x \o Lit(", filename: ") \o a.name \o <<41>>
     ELSE x \o Lit(", filename: ") \o a.name \o Lit(", block number: ") \o DecI(a.num) \o Lit(", block offset: ") \o Hex(Nat2(a.off), 8)
            \o Lit(", block size: ") \o DecI(a.size) \o <<41>>

(* microseconds since 1601-01-01, as far as the year 9999                    *)
Date(b) ==
  LET q1 == DivMod(b, 1000)
      q2 == DivMod(q1[1], 1000)
      us == q2[2] * 1000 + q1[2]
      qd == DivMod(q2[1], 86400)
  IN IF Sat(qd[1]) > 3067670 THEN [ok |-> FALSE, t |-> Hex(b, 8)]
     ELSE [ok |-> TRUE, t |-> DateTimeText(q2[1], -134774) \o (IF us = 0 THEN <<>> ELSE <<46>> \o ZeroPadI(us, 6))]
TimeText2(b) == LET d == Date(b) IN IF d.ok THEN d.t \o Lit(" (") \o Hex(b, 8) \o <<41>> ELSE d.t

InitSt ==
  /\ st = [pc |-> "start", f |-> 0, pos |-> 0, table |-> <<>>, i |-> 1, open |-> <<>>, missing |-> FALSE, cur |-> <<0, 0, 0, 0>>, len |-> 0]
  /\ ev = <<>>
Fail(e) == st' = [st EXCEPT !.pc = "fail"] /\ ev' = e
D == Data(st.f)

Start ==
  /\ st.pc = "start"
  /\ ev' = <<>>
  /\ st' = CASE Kind(sc) = "dir" -> (IF FileNos(INDEX) = {} THEN [st EXCEPT !.pc = "fail"]
                                     ELSE [st EXCEPT !.pc = "index", !.f = CHOOSE i \in FileNos(INDEX) : TRUE])
             [] Kind(sc) = "index" -> [st EXCEPT !.pc = "index", !.f = 1]
             [] Kind(sc) = "data" -> [st EXCEPT !.pc = "data", !.f = 1]
             [] Kind(sc) = "file" -> [st EXCEPT !.f = 1, !.pc = LET s == Sub(Data(1), 0, 4) IN
                                        IF ~Fits(Data(1), 0, 4) THEN "fail"
                                        ELSE IF s = <<195, 202, 4, 193>> THEN "data" ELSE IF s = <<195, 202, 3, 193>> THEN "index" ELSE "fail"]
  /\ UNCHANGED sc

Version(o) == LEi(D, o, 2)
GoodVersion(maj, min) == maj = 2 /\ min \in {0, 1}
FileNo(b) == Dec(b) \o Lit(" (f_") \o HexRaw(b, 6) \o <<41>>
ReadIndexHeader ==
  /\ st.pc = "index"
  /\ IF ~Fits(D, 0, 256) \/ Sub(D, 0, 4) # <<195, 202, 3, 193>> THEN Fail(<<>>)
     ELSE /\ ev' = <<At("index file header", 0)>>
              \o Fields(D, 0, FALSE, <<Field("Signature", 0, 4, "hex8"), Field("Minor format version", 4, 2, "dec"), Field("Major format version", 6, 2, "dec"),
                                       Field("Number of entries", 8, 4, "dec"), Field("Stored data size", 12, 4, "dec")>>)
              \o <<Ln("Last created file number", FileNo(LE(D, 16, 4)))>>
              \o Fields(D, 0, FALSE, <<Field("Unknown1", 20, 4, "hex8"), Field("Unknown2", 24, 4, "hex8"), Field("Table size", 28, 4, "dec"),
                                       Field("Unknown3", 32, 4, "hex8"), Field("Unknown4", 36, 4, "hex8")>>)
              \o <<Ln("Creation time", TimeText2(LE(D, 40, 8)))>>
          /\ st' = IF GoodVersion(Version(6), Version(4)) THEN [st EXCEPT !.pc = "lru"] ELSE [st EXCEPT !.pc = "fail"]
  /\ UNCHANGED sc
AddrLn(label, o) == Ln(label, AddrText(Sub(D, o, 4)))
Numbered(label, i) == StrOf(Lit(label) \o DecI(i))
ReadLRU ==
  /\ st.pc = "lru"
  /\ IF ~Fits(D, 256, 112) THEN Fail(<<>>)
     ELSE /\ ev' = <<At("index file LRU", 256), Ln("Filled flag", Hex(LE(D, 264, 4), 8))>>
              \o [i \in 1..5 |-> Ln("Size", Dec(LE(D, 264 + 4 * i, 4)))]
              \o [i \in 1..5 |-> AddrLn(Numbered("Head address: ", i - 1), 284 + 4 * i)]
              \o [i \in 1..5 |-> AddrLn(Numbered("Tail address: ", i - 1), 304 + 4 * i)]
              \o <<AddrLn("Transaction address", 328), Ln("Operation", Hex(LE(D, 332, 4), 8)), Ln("Operation list", Hex(LE(D, 336, 4), 8))>>
          /\ st' = [st EXCEPT !.pc = "table", !.pos = 368]
  /\ UNCHANGED sc
(* the addresses other than 0; a partial one at the end is ignored          *)
RECURSIVE NextAddr(_)
NextAddr(o) == IF ~Fits(D, o, 4) THEN -1 ELSE IF Sub(D, o, 4) # <<0, 0, 0, 0>> THEN o ELSE NextAddr(o + 4)
ReadAddress ==
  /\ st.pc = "table"
  /\ LET o == NextAddr(st.pos)
         n == (o - 368) \div 4
     IN IF o < 0 THEN ev' = <<>> /\ st' = [st EXCEPT !.pc = IF Kind(sc) = "dir" THEN "files" ELSE IF Kind(sc) = "index" THEN "show" ELSE "done"]
        ELSE /\ ev' = <<AddrLn(Numbered("Cache address: ", n), o)>>
             /\ st' = [st EXCEPT !.pos = o + 4, !.table = Append(@, [n |-> n, b |-> Sub(D, o, 4)])]
  /\ UNCHANGED sc
ShowIndex ==
  /\ st.pc = "show"
  /\ ev' = <<[k |-> "!index", version |-> DecI(Version(6)) \o <<46>> \o DecI(Version(4)), time |-> LE(D, 40, 8),
              table |-> [i \in 1..Len(st.table) |-> LET a == Addr(st.table[i].b) IN
                          [n |-> st.table[i].n, v |-> a.v, init |-> a.init, type |-> a.type, name |-> a.name, num |-> a.num, off |-> a.off, size |-> a.size]]]>>
  /\ st' = [st EXCEPT !.pc = "done"]
  /\ UNCHANGED sc

(* a data block file; the blocks in use are shown as ranges                 *)
RangeLn(a, b) == Ln("Block range", DecI(a) \o Lit(" - ") \o DecI(b) \o Lit(" (") \o DecI(b - a) \o <<41>>)
Pow == <<1, 2, 4, 8, 16, 32, 64, 128>>
On(d, n) == (d[81 + n \div 8] \div Pow[(n % 8) + 1]) % 2 = 1
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o Sorted(S \ {m})
Ranges ==
  LET d == D
      last == 8 * (HDR - 80) - 1
      some == {o \in 0..(HDR - 81) : d[o + 81] # 0}
      edge == {o \in some : ~(d[o + 81] = 255 /\ o > 0 /\ o < HDR - 81 /\ d[o + 80] = 255 /\ d[o + 82] = 255)}
      bits == {n \in UNION {(8 * o)..(8 * o + 7) : o \in edge} : On(d, n)}
      starts == Sorted({n \in bits : n = 0 \/ ~On(d, n - 1)})
      ends == Sorted({n \in bits : n = last \/ ~On(d, n + 1)})
  IN [i \in 1..Len(starts) |-> RangeLn(starts[i], ends[i] + 1)]
RECURSIVE DecList(_, _)
DecList(o, n) == Dec(LE(D, o, 4)) \o (IF n = 1 THEN <<>> ELSE <<44, 32>> \o DecList(o + 4, n - 1))
ReadDataHeader ==
  /\ st.pc = "data"
  /\ IF ~Fits(D, 0, HDR) \/ Sub(D, 0, 4) # <<195, 202, 4, 193>> THEN Fail(<<>>)
     ELSE /\ ev' = <<At("data block file header", 0)>>
              \o Fields(D, 0, FALSE, <<Field("Signature", 0, 4, "hex8"), Field("Minor format version", 4, 2, "dec"), Field("Major format version", 6, 2, "dec"),
                                       Field("File number", 8, 2, "dec"), Field("Next file number", 10, 2, "dec"), Field("Block size", 12, 4, "dec"),
                                       Field("Number of entries", 16, 4, "dec"), Field("Maximum number of entries", 20, 4, "dec")>>)
              \o <<Ln("Empty", DecList(24, 4)), Ln("Hints", DecList(40, 4)), Ln("Updating", Hex(LE(D, 56, 4), 8)), Ln("User", DecList(60, 5))>>
              \o Ranges
              \o (IF Kind(sc) = "data" /\ GoodVersion(Version(6), Version(4))
                  THEN <<[k |-> "!data", version |-> DecI(Version(6)) \o <<46>> \o DecI(Version(4)), size |-> LE(D, 12, 4), n |-> LE(D, 16, 4)]>> ELSE <<>>)
          /\ st' = IF ~GoodVersion(Version(6), Version(4)) THEN [st EXCEPT !.pc = "fail"]
                   ELSE [st EXCEPT !.pc = IF Kind(sc) = "dir" THEN "files" ELSE IF Kind(sc) = "data" THEN "ops" ELSE "done"]
  /\ UNCHANGED sc

(* opens the data block files of the addresses in the table                 *)
OpenFiles ==
  /\ st.pc = "files"
  /\ ev' = <<>>
  /\ LET a == Addr(st.table[st.i].b)
         nos == FileNos(a.name)
     IN st' = IF st.i > Len(st.table) THEN [st EXCEPT !.pc = IF st.missing THEN "fail" ELSE "chain", !.i = 0]
              ELSE IF a.name = <<>> \/ nos = {} THEN [st EXCEPT !.missing = TRUE, !.i = @ + 1]
              ELSE LET f == CHOOSE x \in nos : TRUE IN
                   IF \E x \in 1..Len(st.open) : st.open[x] = f THEN [st EXCEPT !.i = @ + 1]
                   ELSE [st EXCEPT !.pc = "data", !.f = f, !.open = Append(@, f), !.i = @ + 1]
  /\ UNCHANGED sc

KeyText(s) == [i \in 1..Len(s) |-> IF s[i] < 128 THEN s[i] ELSE 65533]
Entry(o) ==
  [key |-> KeyText(UpToNul(Sub(D, o + 96, 160))), time |-> LE(D, o + 24, 8), next |-> Sub(D, o + 4, 4),
   e |-> <<At("data block cache entry", o), Ln("Hash", Hex(LE(D, o, 4), 8)), AddrLn("Next address", o + 4), AddrLn("Rankings node address", o + 8),
           Ln("Reuse count", Dec(LE(D, o + 12, 4))), Ln("Refetch count", Dec(LE(D, o + 16, 4))), Ln("State", Hex(LE(D, o + 20, 4), 8)),
           Ln("Creation time", TimeText2(LE(D, o + 24, 8)))>>
         \o [i \in 1..4 |-> Ln(Numbered("Data stream size: ", i - 1), Dec(LE(D, o + 36 + 4 * i, 4)))]
         \o [i \in 1..4 |-> AddrLn(Numbered("Data stream address: ", i - 1), o + 52 + 4 * i)]
         \o <<Ln("Flags", Hex(LE(D, o + 72, 4), 8)), Ln("Self hash", Hex(LE(D, o + 92, 4), 8)), Ln("Key", KeyText(UpToNul(Sub(D, o + 96, 160))))>>]
(* the next chain of the table                                              *)
StartChain ==
  /\ st.pc = "chain" /\ ev' = <<>>
  /\ st' = IF st.i >= Len(st.table) THEN [st EXCEPT !.pc = "done"]
           ELSE [st EXCEPT !.pc = "follow", !.i = @ + 1, !.cur = st.table[st.i + 1].b, !.len = 0]
  /\ UNCHANGED sc
(* follows a chain: to address 0, to a file that is not open, or for 64     *)
(* entries; an entry is shown as its creation time and key                  *)
Target(a) == {x \in 1..Len(st.open) : Files[st.open[x]].name = a.name}
Select ==
  /\ st.pc = "follow" /\ ev' = <<>>
  /\ LET a == Addr(st.cur) IN
     st' = IF a.zero \/ st.len >= CHAIN \/ a.off < 0 THEN [st EXCEPT !.pc = "chain"]
           ELSE IF Target(a) = {} THEN [st EXCEPT !.pc = "chain"]
           ELSE [st EXCEPT !.pc = "entry", !.f = st.open[CHOOSE x \in Target(a) : TRUE], !.pos = a.off]
  /\ UNCHANGED sc
ReadEntry ==
  /\ st.pc = "entry"
  /\ IF ~Fits(D, st.pos, 256) THEN Fail(<<>>)
     ELSE LET x == Entry(st.pos) IN
          /\ ev' = x.e \o <<[k |-> "!line", v |-> Date(x.time).t \o <<9>> \o x.key]>>
          /\ st' = [st EXCEPT !.pc = "follow", !.cur = x.next, !.len = @ + 1]
  /\ UNCHANGED sc

ReadAt ==
  /\ st.pc = "ops"
  /\ IF st.i > Len(Ops(sc)) THEN ev' = <<>> /\ st' = [st EXCEPT !.pc = "done"]
     ELSE LET o == Ops(sc)[st.i]
          IN IF ~Fits(D, o, 256) THEN Fail(<<>>)
             ELSE LET x == Entry(o) IN
                  /\ ev' = x.e \o <<[k |-> "!entry", hash |-> LE(D, o, 4), key |-> x.key, time |-> x.time, next |-> Norm(x.next), rank |-> LE(D, o + 8, 4)]>>
                  /\ st' = [st EXCEPT !.i = @ + 1]
  /\ UNCHANGED sc

Next == Start \/ ReadIndexHeader \/ ReadLRU \/ ReadAddress \/ ShowIndex \/ ReadDataHeader \/ OpenFiles \/ StartChain \/ Select \/ ReadEntry \/ ReadAt
Done == st.pc \in {"done", "fail"}
Outcomes == IF st.pc = "done" THEN {"ok"} ELSE {"ParseError"}
-----------------------------------------------------------------------------
ChainBound == st.len <= CHAIN
OnlyOpen == st.pc = "entry" => \E x \in 1..Len(st.open) : st.open[x] = st.f
=============================================================================
