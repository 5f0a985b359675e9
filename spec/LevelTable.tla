----------------------------- MODULE LevelTable ------------------------------
(* LevelDB sorted table (.ldb): a footer with the handles of the metaindex  *)
(* and index blocks; the values of the index table are the handles of the   *)
(* data blocks, whose tables hold the entries.  A table stores its keys     *)
(* prefix-compressed.  Unz gives the contents of compressed blocks.  The    *)
(* IndexedDB variant splits the keys of the entries in segments.            *)
EXTENDS Text
CONSTANT Src(_), Unz(_), Kind(_)
VARIABLES sc, st, ev
vars == <<sc, st, ev>>
F == Src(sc)

NoHandle == [o |-> 0, n |-> 0]
InitSt == st = [pc |-> "footer", ix |-> NoHandle, mi |-> NoHandle, what |-> "Index", todo |-> <<>>, t |-> <<>>, o |-> 0, end |-> 0,
                i |-> 0, key |-> <<>>, es |-> <<>>, n |-> 0] /\ ev = <<>>
Fail(e) == st' = [st EXCEPT !.pc = "fail"] /\ ev' = e

(* a block handle: two variable size integers.  e: the report, n = 0: none  *)
Handle(b, o, label) ==
  LET x == VarInt(b, o, Len(b))
      y == VarInt(b, o + x.n, Len(b))
  IN IF x.n = 0 \/ y.n = 0 THEN [n |-> 0]
     ELSE [n |-> x.n + y.n, h |-> [o |-> Sat(x.v), n |-> Sat(y.v)],
           e |-> <<Ln(label \o " block offset", Hex(x.v, 8)), Ln(label \o " block size", Dec(y.v))>>]

MAGIC == <<87, 251, 128, 139, 36, 117, 71, 219>>
ReadFooter ==
  /\ st.pc = "footer"
  /\ LET p == Len(F) - 48
         b == Sub(F, p, 40)
         m == Handle(b, 0, "Metaindex")
         x == Handle(b, m.n, "Index")
     IN IF p < 0 THEN Fail(<<>>)
        ELSE IF Sub(F, p + 40, 8) # MAGIC THEN Fail(<<>>)
        ELSE IF m.n = 0 THEN Fail(<<At("file footer", p)>>)
        ELSE IF x.n = 0 THEN Fail(<<At("file footer", p)>> \o m.e)
        ELSE /\ ev' = <<At("file footer", p)>> \o m.e \o x.e \o <<Hexd("Padding", Sub(b, m.n + x.n, 40 - m.n - x.n)), Hexd("Signature", MAGIC)>>
             /\ st' = [st EXCEPT !.pc = "metaindex", !.mi = m.h, !.ix = x.h]
  /\ UNCHANGED sc
ReadMetaindex ==
  /\ st.pc = "metaindex"
  /\ IF ~Fits(F, st.mi.o, st.mi.n) THEN Fail(<<>>)
     ELSE ev' = <<Hexd("Metaindex block data", Sub(F, st.mi.o, st.mi.n))>> /\ st' = [st EXCEPT !.pc = "block", !.todo = <<st.ix>>]
  /\ UNCHANGED sc

(* reads the block of the first handle to do                                *)
ReadBlock ==
  /\ st.pc = "block" /\ Len(st.todo) > 0
  /\ LET h == st.todo[1]
         raw == Sub(F, h.o, h.n)
         q == h.o + h.n
         c == F[q + 1]
         us == {k \in 1..Len(Unz(sc)) : Unz(sc)[k].o = h.o /\ Unz(sc)[k].n = h.n}
         u == Unz(sc)[CHOOSE k \in us : TRUE]
         t == IF c = 0 THEN raw ELSE u.data
         e == <<Hexd(st.what \o " block data", raw)>>
         e2 == e \o <<At("block trailer", q)>> \o Fields(F, q, FALSE, <<Field("Compression type", 0, 1, "dec"), Field("Checksum", 1, 4, "hex8")>>)
         k == Len(t) - 4
         r == LE(t, k, 4)
         e3 == e2 \o <<Hexd(st.what \o " table data", t), Ln("Number of restart values", Dec(r))>>
         end == k - 4 * Sat(r)
         RECURSIVE Restarts(_)
         Restarts(o) == IF o >= k THEN <<>> ELSE (IF o = end THEN <<>> ELSE <<44, 32>>) \o Dec(LE(t, o, 4)) \o Restarts(o + 4)
     IN IF ~Fits(F, h.o, h.n) THEN Fail(<<>>)
        ELSE IF ~Fits(F, q, 5) THEN Fail(e)
        ELSE IF c > 2 THEN Fail(e2)
        ELSE IF c # 0 /\ (us = {} \/ ~u.ok) THEN Fail(e2)
        ELSE IF k < 0 THEN Fail(e2 \o <<Hexd(st.what \o " table data", t)>>)
        ELSE IF Sat(r) > k \div 4 THEN Fail(e3)
        ELSE /\ ev' = e3 \o <<Ln("Restart values", Restarts(end))>>
             /\ st' = [st EXCEPT !.pc = "entry", !.todo = Tail(@), !.t = t, !.o = 0, !.end = end, !.i = 0, !.key = <<>>, !.es = <<>>]
  /\ UNCHANGED sc

TypeName(t) == IF t = 0 THEN " (kTypeDeletion)" ELSE IF t = 1 THEN " (kTypeValue)" ELSE " (UNKNOWN)"
EntryLabel(s) == StrOf(Lit("Entry: ") \o DecI(st.i)) \o s
ReadEntry ==
  /\ st.pc = "entry" /\ st.o < st.end
  /\ LET t == st.t
         s == VarInt(t, st.o, st.end)
         u == VarInt(t, st.o + s.n, st.end)
         v == VarInt(t, st.o + s.n + u.n, st.end)
         at == st.o + s.n + u.n + v.n
         shared == Sat(s.v)
         own == Sat(u.v)
         size == Sat(v.v)
         e0 == <<Ln("Offset", Dec(Nat2(st.o)))>>
         e1 == e0 \o <<Ln(EntryLabel(" shared key data size"), Dec(s.v)), Ln(EntryLabel(" non-shared key data size"), Dec(u.v)),
                       Ln(EntryLabel(" value data size"), Dec(v.v))>>
         part == Sub(t, at, own)
         key == SubSeq(st.key, 1, shared) \o part
         e2 == e1 \o <<Hexd(EntryLabel(" key data"), part)>> \o (IF shared > 0 THEN <<Hexd(EntryLabel(" key data"), key)>> ELSE <<>>)
         user == SubSeq(key, 1, Len(key) - 8)
         suffix == Sub(key, Len(key) - 8, 8)
         value == Sub(t, at + own, size)
     IN IF s.n = 0 \/ u.n = 0 \/ v.n = 0 THEN Fail(e0)
        ELSE IF shared > Len(st.key) THEN Fail(e1)
        ELSE IF own > st.end - at \/ size > st.end - at - own THEN Fail(e1)
        ELSE IF shared + own < 8 THEN Fail(e2)
        ELSE /\ ev' = e2 \o <<Ln("Key", <<98>> \o BytesRepr(user)), Ln("Value type", DecI(suffix[1]) \o Lit(TypeName(suffix[1]))),
                              Ln("Sequence number", Dec(LE(suffix, 1, 7))), Hexd(EntryLabel(" value data"), value)>>
             /\ st' = [st EXCEPT !.o = at + own + size, !.i = @ + 1, !.key = key,
                                 !.es = Append(@, [key |-> user, seq |-> LE(suffix, 1, 7), type |-> suffix[1], value |-> value])]
  /\ UNCHANGED sc
(* the handles of the index table are read one by one, after the entries of *)
(* the previous data block were given out                                   *)
EndTable ==
  /\ st.pc = "entry" /\ st.o >= st.end
  /\ st' = [st EXCEPT !.pc = IF st.what = "Index" THEN "handle" ELSE "give",
                      !.todo = IF st.what = "Index" THEN [k \in 1..Len(st.es) |-> st.es[k].value] ELSE @]
  /\ ev' = <<>> /\ UNCHANGED sc
ReadHandle ==
  /\ st.pc = "handle"
  /\ IF Len(st.todo) = 0 THEN ev' = <<>> /\ st' = [st EXCEPT !.pc = "done"]
     ELSE LET h == Handle(st.todo[1], 0, "Data") IN
          IF h.n = 0 THEN Fail(<<>>)
          ELSE ev' = h.e /\ st' = [st EXCEPT !.pc = "block", !.what = "Data", !.todo = <<h.h>> \o Tail(@)]
  /\ UNCHANGED sc

(* IndexedDB key segments: a byte with three sizes, the three identifiers,  *)
(* for global metadata (0, 0, 0) a type, and what remains                   *)
Segments(key) ==
  LET b == key[1]
      n1 == b \div 32 + 1
      n2 == (b % 32) \div 4 + 1
      n3 == (b % 4) + 1
      n == 1 + n1 + n2 + n3
      a == LE(key, 1, n1)
      c == LE(key, 1 + n1, n2)
      d == LE(key, 1 + n1 + n2, n3)
      meta == a = <<>> /\ c = <<>> /\ d = <<>>
      m == IF meta THEN n + 1 ELSE n
      rest == Sub(key, m, Len(key) - m)
  IN IF Len(key) = 0 THEN [ok |-> FALSE]
     ELSE IF Len(key) < m THEN [ok |-> FALSE]
     ELSE [ok |-> TRUE, s |-> <<Dec(a), Dec(c), Dec(d)>> \o (IF meta THEN <<DecI(key[m])>> ELSE <<>>)
                              \o (IF Len(rest) > 0 THEN <<BytesRepr(rest)>> ELSE <<>>)]
Give ==
  /\ st.pc = "give"
  /\ IF Len(st.es) = 0 THEN ev' = <<>> /\ st' = [st EXCEPT !.pc = "handle"]
     ELSE LET x == st.es[1]
              g == Segments(x.key)
          IN IF Kind(sc) = "leveldb" THEN
               /\ ev' = <<[k |-> "!entry", key |-> x.key, seq |-> x.seq, type |-> Nat2(x.type), value |-> x.value]>>
               /\ st' = [st EXCEPT !.es = Tail(@), !.n = @ + 1]
             ELSE IF ~g.ok THEN Fail(<<>>)
             ELSE /\ ev' = <<[k |-> "!entry", key |-> g.s, seq |-> x.seq, type |-> Nat2(x.type), value |-> x.value]>>
                  /\ st' = [st EXCEPT !.es = Tail(@), !.n = @ + 1]
  /\ UNCHANGED sc

Next == ReadFooter \/ ReadMetaindex \/ ReadBlock \/ ReadEntry \/ EndTable \/ ReadHandle \/ Give
Done == st.pc \in {"done", "fail"}
Outcomes == IF st.pc = "done" THEN {"ok"} ELSE {"ParseError"}
-----------------------------------------------------------------------------
InTable == st.pc = "entry" => st.o <= st.end /\ st.end <= Len(st.t)
(* a shared prefix never reaches beyond the previous key                    *)
PrefixClosed == [][st.pc = "entry" /\ st'.pc = "entry" /\ st'.i = st.i + 1 => st'.o > st.o]_vars
=============================================================================
