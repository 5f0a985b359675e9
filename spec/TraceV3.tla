------------------------------- MODULE TraceV3 -------------------------------
(* The log entries of a tracev3 file: a header, then chunks (catalogs and    *)
(* chunk sets), where a chunk set holds firehose, oversize, state dump and   *)
(* simple dump chunks. The strings of the entries are in the support files   *)
(* next to the file.                                                         *)
(* A source is                                                               *)
(*   data   the file                                                         *)
(*   lz     what each compressed chunk set holds ([at, ok, data]; the LZ4    *)
(*          library is not part of the system)                               *)
(*   uuid   the uuidtext files ([id, data]), empty if there is no directory  *)
(*   dsc    the shared-cache strings files ([id, data])                      *)
(*   sync   the timesync files, in the order of the directory                *)
(*   strict a dump of an unknown process is an error                         *)
EXTENDS ULFormat
CONSTANT Src(_)
VARIABLES sc, st, ev
vars == <<sc, st, ev>>
S == Src(sc)
F == S.data
NONE == <<-1>>
IntV(nat) == <<0>> \o Norm(nat)
Or0(x) == IF x = NONE THEN <<>> ELSE x
RECURSIVE PowB(_)
PowB(k) == IF k = 0 THEN 1 ELSE 2 * PowB(k - 1)
HasBit(n, k) == (n \div PowB(k)) % 2 = 1
AndM(n, m) == LET RECURSIVE A(_, _) A(a, b) == IF a = 0 \/ b = 0 THEN 0 ELSE (IF a % 2 = 1 /\ b % 2 = 1 THEN 1 ELSE 0) + 2 * A(a \div 2, b \div 2) IN A(n, m)
OrM(n, m) == n + m - AndM(n, m)
OrN(a, b) == LET l == MaxOf(Len(a), Len(b)) at(x, i) == IF i > Len(x) THEN 0 ELSE x[i] IN Norm([i \in 1..l |-> OrM(at(a, i), at(b, i))])
(* without the most significant of 64 bits                                   *)
Bits63(n) == IF Len(n) < 8 THEN n ELSE Norm([n EXCEPT ![8] = @ % 128])
(* signed numbers <<sign>> \o magnitude                                      *)
AddS(s, n) == IF s[1] = 0 THEN <<0>> \o AddN(Norm(Tail(s)), Norm(n))
              ELSE IF LtN(Norm(n), Norm(Tail(s))) THEN <<1>> \o SubN(Norm(Tail(s)), Norm(n))
              ELSE <<0>> \o SubN(Norm(n), Norm(Tail(s)))
Diff(a, b) == IF LtN(a, b) THEN <<1>> \o SubN(b, a) ELSE <<0>> \o SubN(a, b)
(* the bytes between two positions of which a negative one is from the end   *)
Slice(d, a, b) == LET i == IF a < 0 THEN MaxOf(0, Len(d) + a) ELSE MinOf(a, Len(d))
                      j == IF b < 0 THEN MaxOf(0, Len(d) + b) ELSE MinOf(b, Len(d))
                  IN IF i >= j THEN <<>> ELSE SubSeq(d, i + 1, j)

(* --- time ---------------------------------------------------------------- *)
(* double-precision arithmetic: [m, e] is m * 2^e with m below 2^53          *)
BitLen(n) == IF n = <<>> THEN 0 ELSE 8 * (Len(n) - 1) + (CHOOSE k \in 1..8 : n[Len(n)] < PowB(k) /\ n[Len(n)] >= PowB(k - 1))
Round53(n, e, sticky) ==
  LET s == BitLen(n) - 53
      q == Norm(ShrN(n, s))
      rem == SubN(n, Norm(ShlN(q, s)))
      half == Norm(ShlN(<<1>>, s - 1))
      up == LtN(half, rem) \/ (rem = half /\ (sticky \/ q[1] % 2 = 1))
  IN IF s <= 0 THEN [m |-> n, e |-> e] ELSE [m |-> IF up THEN AddN(q, <<1>>) ELSE q, e |-> e + s]
RECURSIVE LongDiv(_, _, _, _, _)
LongDiv(n, d, k, q, r) ==   \* the bits of n from k down
  IF k < 0 THEN <<q, r>>
  ELSE LET b == IF k \div 8 >= Len(n) THEN 0 ELSE (n[k \div 8 + 1] \div PowB(k % 8)) % 2
           r2 == Norm(MulAdd(r, 2, b))
           fit == LeN(d, r2)
       IN LongDiv(n, d, k - 1, Norm(MulAdd(q, 2, IF fit THEN 1 ELSE 0)), IF fit THEN SubN(r2, d) ELSE r2)
Ratio(num, den) ==
  IF num = <<>> THEN [m |-> <<>>, e |-> 0]
  ELSE LET x == Norm(ShlN(num, 96))
           dm == DivMod(x, Sat(den))
           qr == IF Len(den) <= 2 THEN <<dm[1], Nat2(dm[2])>> ELSE LongDiv(x, den, BitLen(x) - 1, <<>>, <<>>)
       IN Round53(qr[1], -96, qr[2] # <<>>)
Scale(ticks, tb) ==
  LET t == Round53(Norm(ticks), 0, FALSE)
      p == Round53(Norm(MulN(t.m, tb.m)), t.e + tb.e, FALSE)
  IN IF t.m = <<>> \/ tb.m = <<>> THEN <<>> ELSE IF p.e >= 0 THEN Norm(ShlN(p.m, p.e)) ELSE Norm(ShrN(p.m, -p.e))

(* the records of the boot in the timesync files                             *)
SyncRec(D, o) ==
  LET boot == Sub(D, o, 2) = <<176, 187>>
      size == IF boot THEN 48 ELSE 32
  IN IF ~Fits(D, o, 2) \/ (~boot /\ Sub(D, o, 2) # <<84, 115>>) \/ ~Fits(D, o, size) THEN [ok |-> FALSE]
     ELSE IF LEi(D, o + 2, 2) < size THEN [ok |-> FALSE]
     ELSE [ok |-> TRUE, boot |-> boot, next |-> o + LEi(D, o + 2, 2), time |-> TwosC(Sub(D, o + size - 16, 8)),
           id |-> IF boot THEN Sub(D, o + 8, 16) ELSE <<>>, kernel |-> IF boot THEN <<>> ELSE LE(D, o + 8, 8),
           num |-> IF boot THEN LE(D, o + 24, 4) ELSE <<>>, den |-> IF boot THEN LE(D, o + 28, 4) ELSE <<>>]
NoSync == [ok |-> TRUE, found |-> FALSE, boot |-> <<>>, recs |-> <<>>]
RECURSIVE SyncIn(_, _, _, _)
SyncIn(D, o, id, acc) ==
  IF o >= Len(D) THEN acc
  ELSE LET r == SyncRec(D, o) IN
       IF ~r.ok THEN [acc EXCEPT !.ok = FALSE]
       ELSE IF acc.found THEN (IF r.boot THEN acc ELSE SyncIn(D, r.next, id, [acc EXCEPT !.recs = Append(@, r)]))
       ELSE SyncIn(D, r.next, id, IF r.boot /\ r.id = id THEN [acc EXCEPT !.found = TRUE, !.boot = r] ELSE acc)
RECURSIVE SyncAll(_, _, _)
SyncAll(k, id, acc) == IF k > Len(S.sync) \/ acc.found \/ ~acc.ok THEN acc ELSE SyncAll(k + 1, id, SyncIn(S.sync[k], 0, id, acc))
(* the latest synchronisation at or before a continuous time                 *)
Before(ct) == {k \in 1..Len(st.sync.recs) : LeN(st.sync.recs[k].kernel, ct)}
Latest(ct) == CHOOSE k \in Before(ct) : \A j \in Before(ct) :
                LtN(st.sync.recs[j].kernel, st.sync.recs[k].kernel) \/ (st.sync.recs[j].kernel = st.sync.recs[k].kernel /\ k <= j)
Time(ct) == IF Before(ct) # {} THEN LET r == st.sync.recs[Latest(ct)] IN AddS(r.time, Scale(SubN(ct, r.kernel), st.tb))
            ELSE IF st.sync.found THEN AddS(st.sync.boot.time, Scale(ct, st.tb))
            ELSE AddS(st.start, Scale(ct, st.tb))

(* --- support files ------------------------------------------------------- *)
CStrIn(D, nat) ==
  LET o == Sat(nat)
      rest == IF o >= Len(D) THEN <<>> ELSE SubSeq(D, o + 1, Len(D))
      z == IndexOfVal(rest, 0)
  IN IF z = 0 THEN <<FALSE, <<>>>> ELSE Utf8(SubSeq(rest, 1, z - 1))
FileOf(files, id) == IF \E k \in 1..Len(files) : files[k].id = id THEN <<files[CHOOSE k \in 1..Len(files) : files[k].id = id].data>> ELSE <<>>
BADFILE == [ok |-> FALSE, ranges |-> <<>>, path |-> <<>>]
TextFile(D) ==
  LET n == LEi(D, 12, 4)
      RECURSIVE Sum(_)
      Sum(j) == IF j = 0 THEN Nat2(16 + 8 * n) ELSE AddN(Sum(j - 1), LE(D, 20 + 8 * (j - 1), 4))
      foot == CStrIn(D, Sum(n))
  IN IF ~Fits(D, 0, 16) \/ Sub(D, 0, 4) # <<153, 136, 119, 102>> \/ n > Len(D) \/ ~Fits(D, 16, 8 * n) \/ LEi(D, 4, 4) # 2 \/ LEi(D, 8, 4) # 1 THEN BADFILE
     ELSE IF ~foot[1] THEN BADFILE
     ELSE [ok |-> TRUE, path |-> foot[2], ranges |-> [j \in 1..n |-> [data |-> Sum(j - 1), at |-> LE(D, 16 + 8 * (j - 1), 4), size |-> LE(D, 20 + 8 * (j - 1), 4)]]]
DscFile(D) ==
  LET v == LEi(D, 4, 2)
      n == LEi(D, 8, 4) m == LEi(D, 12, 4)
      rs == IF v = 1 THEN 16 ELSE 24
      us == IF v = 1 THEN 28 ELSE 32
      w == IF v = 1 THEN 4 ELSE 8
      ro(k) == 16 + rs * (k - 1)
      uo(k) == 16 + rs * n + us * k
      idx(k) == IF v = 1 THEN LE(D, ro(k), 4) ELSE LE(D, ro(k) + 16, 8)
      path(k) == CStrIn(D, LE(D, uo(k) + w + 20, 4))
  IN IF ~Fits(D, 0, 16) \/ Sub(D, 0, 4) # Lit("hcsd") \/ v \notin {1, 2} \/ LEi(D, 6, 2) # 0 THEN BADFILE
     ELSE IF n > Len(D) \/ m > Len(D) THEN BADFILE
     ELSE IF ~Fits(D, 16, rs * n + us * m) THEN BADFILE
     ELSE IF (\E k \in 0..m - 1 : ~path(k)[1]) \/ (\E k \in 1..n : Sat(idx(k)) >= m) THEN BADFILE
     ELSE [ok |-> TRUE, path |-> <<>>,
           ranges |-> [k \in 1..n |-> LET u == Sat(idx(k)) IN
              [data |-> LE(D, ro(k) + 8, 4), at |-> IF v = 1 THEN LE(D, ro(k) + 4, 4) ELSE LE(D, ro(k), 8), size |-> LE(D, ro(k) + 12, 4),
               id |-> Sub(D, uo(u) + w + 4, 16), path |-> path(u)[2], text |-> LE(D, uo(u), w), tsize |-> LE(D, uo(u) + w, 4)]]]
First(ranges, P(_)) == LET H == {k \in 1..Len(ranges) : P(ranges[k])} IN IF H = {} THEN <<>> ELSE <<ranges[CHOOSE k \in H : \A j \in H : k <= j]>>
Within(n, from, size) == LeN(from, n) /\ LtN(SubN(n, from), size)

(* --- format strings ------------------------------------------------------ *)
RECURSIVE Operators(_, _)
Operators(s, i) ==
  LET k == FindFrom(s, i, 37) op == OperatorAt(s, k) IN
  IF k = 0 THEN <<>>
  ELSE IF op.ok THEN <<op>> \o Operators(s, op.next)
  ELSE Operators(s, IF k < Len(s) /\ s[k + 1] = 37 THEN k + 2 ELSE k + 1)
RECURSIVE Compose(_, _, _)
Compose(s, i, vals) ==
  LET k == FindFrom(s, i, 37) op == OperatorAt(s, k) IN
  IF k = 0 THEN SubSeq(s, i, Len(s))
  ELSE SubSeq(s, i, k - 1)
       \o (IF op.ok THEN (IF vals = <<>> THEN Lit("<decode: missing data>") ELSE vals[1]) \o Compose(s, op.next, IF vals = <<>> THEN <<>> ELSE Tail(vals))
           ELSE <<37>> \o Compose(s, IF k < Len(s) /\ s[k + 1] = 37 THEN k + 2 ELSE k + 1, vals))
(* fmt: NONE without image, otherwise <<>> or the format string              *)
Value(img, k, v) ==
  IF ~img.have THEN Txt(Lit("<decode: missing string formatter>"))
  ELSE LET ops == IF img.string = NONE THEN <<>> ELSE Operators(img.string, 1)
       IN IF k > Len(ops) THEN Txt(Lit("<decode: missing decoder>")) ELSE DecodeBy(DecoderNames(ops[k]), v, ops[k])
Message(img, vals) == IF ~img.have THEN Lit("<compose failure [missing precomposed log]>")
                      ELSE IF img.string = NONE THEN <<>> ELSE Compose(img.string, 1, vals)

(* --- entries ------------------------------------------------------------- *)
Blank == [k |-> "!entry", activity |-> NONE, frames |-> NONE, boot |-> st.boot, category |-> NONE, creator |-> NONE, message |-> NONE, type |-> NONE, format |-> NONE,
          count |-> NONE, endmach |-> NONE, endtime |-> NONE, startmach |-> NONE, starttime |-> NONE, mach |-> NONE, level |-> NONE, parent |-> NONE,
          pid |-> NONE, pimage |-> NONE, ppath |-> NONE, image |-> NONE, path |-> NONE, pc |-> NONE, spid |-> NONE, spname |-> NONE, spscope |-> NONE, sptype |-> NONE,
          sub |-> NONE, thread |-> NONE, time |-> NONE, zone |-> NONE, trace |-> NONE, ttl |-> NONE]
Level(n) == CASE n = 0 -> Lit("Default") [] n = 1 -> Lit("Info") [] n = 2 -> Lit("Debug") [] n = 3 -> Lit("Useraction") [] n = 16 -> Lit("Error") [] n = 17 -> Lit("Fault")
              [] n \div 64 \in 1..3 /\ n % 64 <= 2 -> Lit(<<"Thread", "Process", "System">>[n \div 64]) \o Lit(" Signpost ") \o Lit(<<"Event", "Start", "End">>[(n % 64) + 1])
              [] OTHER -> NONE
ZERO == <<0>>
(* the process of an entry: <<>> if it is not known                          *)
ProcOf(D) == LET H == {k \in 1..Len(st.procs) : st.procs[k].key = Sub(D, 0, 12)} IN IF H = {} THEN <<>> ELSE <<st.procs[CHOOSE k \in H : TRUE]>>
(* [ok, id, path] of the image of the process                                *)
ProcImage(p) ==
  LET f == IF p = <<>> \/ p[1].main = NONE THEN <<>> ELSE FileOf(S.uuid, p[1].main)
      t == TextFile(f[1])
  IN IF f = <<>> THEN [ok |-> TRUE, id |-> NONE, path |-> NONE]
     ELSE [ok |-> t.ok, id |-> p[1].main, path |-> t.path]
PidOf(p) == IF p = <<>> THEN ZERO ELSE IntV(p[1].pid)

(* --- the parts of a tracepoint ------------------------------------------- *)
(* fields: <<name, size, present>>; where the named field starts, or -1      *)
RECURSIVE Start(_, _, _)
Start(fields, name, at) ==
  IF fields = <<>> THEN -1
  ELSE LET f == fields[1] IN
       IF f[1] = name THEN (IF f[3] THEN at ELSE -1) ELSE Start(Tail(fields), name, IF f[3] THEN at + f[2] ELSE at)
RECURSIVE Total(_)
Total(fields) == IF fields = <<>> THEN 0 ELSE Total(Tail(fields)) + (IF fields[1][3] THEN fields[1][2] ELSE 0)
Location(fl, kind) == << <<"lower", 4, TRUE>>, <<"large", 2, HasBit(fl, 5)>>, <<"upper", 2, kind = 8>>, <<"ident", 16, kind = 10>>, <<"shared", 2, kind = 12>> >>
Parts(rt, lt, fl) ==
  LET kind == AndM(fl, 14) IN
  CASE rt = 2 -> << <<"current", 8, HasBit(fl, 0)>>, <<"process", 8, HasBit(fl, 4)>>, <<"other", 8, HasBit(fl, 9)>>, <<"new", 8, lt # 3>> >> \o Location(fl, kind)
    [] rt = 3 -> << <<"lower", 4, TRUE>> >>
    [] rt = 4 -> << <<"current", 8, HasBit(fl, 0)>>, <<"range", 4, HasBit(fl, 8)>> >> \o Location(fl, kind)
                 \o << <<"subsys", 2, HasBit(fl, 9)>>, <<"ttl", 1, HasBit(fl, 10)>>, <<"ref", 1, HasBit(fl, 11)>>, <<"unknown", 1, TRUE>>, <<"items", 1, TRUE>> >>
    [] rt = 6 -> << <<"current", 8, HasBit(fl, 0)>>, <<"range", 4, HasBit(fl, 8)>> >> \o Location(fl, kind)
                 \o << <<"subsys", 2, HasBit(fl, 9)>>, <<"signpost", 8, TRUE>>, <<"ttl", 1, HasBit(fl, 10)>>, <<"ref", 1, HasBit(fl, 11)>>,
                       <<"name", 4, HasBit(fl, 15)>>, <<"nameup", 2, HasBit(fl, 15) /\ HasBit(fl, 5)>>, <<"unknown", 1, TRUE>>, <<"items", 1, TRUE>> >>
    [] rt = 7 -> << <<"start", 8, TRUE>>, <<"end", 8, TRUE>>, <<"count", 8, TRUE>> >>
Allowed(rt) == CASE rt = 2 -> 831 [] rt = 3 -> 2 [] rt = 4 -> 7983 [] rt = 6 -> 36655 [] rt = 7 -> 0
LogTypes(rt) == CASE rt = 2 -> {1, 3} [] rt = 3 -> {0} [] rt = 4 -> {0, 1, 2, 16, 17} [] rt = 6 -> {64, 65, 66, 128, 129, 130, 192, 193, 194} [] rt = 7 -> {0}

RANGED == {32, 33, 34, 48, 50, 64, 65, 66, 242}
KNOWN == RANGED \cup {0, 1, 2, 16, 18, 37, 49, 53, 69, 114}
RECURSIVE Items(_, _, _, _)
Items(D, o, n, acc) ==
  IF n = 0 THEN [ok |-> TRUE, items |-> acc, next |-> o]
  ELSE IF ~Fits(D, o, 2) THEN [ok |-> FALSE]
  ELSE LET t == D[o + 1] size == D[o + 2] IN
       IF ~Fits(D, o + 2, size) \/ (t \in RANGED /\ size # 4) THEN [ok |-> FALSE]
       ELSE Items(D, o + 2 + size, n - 1,
                  Append(acc, IF t \in RANGED THEN [t |-> t, at |-> LEi(D, o + 2, 2), size |-> LEi(D, o + 4, 2), data |-> <<>>]
                              ELSE [t |-> t, at |-> 0, size |-> 0, data |-> Sub(D, o + 2, size)]))
(* the values of the data items, in order                                    *)
ItemData(it, pub, priv, shift) ==
  CASE it.t \in {0, 2, 16, 18} -> it.data
    [] it.t \in {32, 34, 64, 66, 48, 50, 242} -> Slice(pub, it.at, it.at + it.size)
    [] it.t \in {33, 65} -> Slice(priv, shift + it.at, shift + it.at + it.size)
    [] OTHER -> <<>>
RECURSIVE ItemValues(_, _, _, _, _, _)
ItemValues(items, img, pub, priv, shift, acc) ==
  IF items = <<>> THEN [ok |-> TRUE, v |-> acc]
  ELSE LET it == items[1]
           d == ItemData(it, pub, priv, shift)
           r == IF it.t \in {1, 33, 37, 49, 53, 65, 69} /\ d = <<>> THEN Txt(Lit("<private>")) ELSE Value(img, Len(acc) + 1, d)
       IN IF it.t \notin KNOWN THEN [ok |-> FALSE]
          ELSE IF it.t \in {16, 18} THEN ItemValues(Tail(items), img, pub, priv, shift, acc)
          ELSE IF ~r.ok THEN [ok |-> FALSE]
          ELSE ItemValues(Tail(items), img, pub, priv, shift, Append(acc, r.t))
TraceValues(vals, n, img) ==
  LET size(k) == vals[Len(vals) - 1 - n + k]
      RECURSIVE At0(_)
      At0(k) == IF k = 1 THEN 0 ELSE At0(k - 1) + size(k - 1)
      r(k) == Value(img, k, Slice(vals, At0(k), At0(k) + size(k)))
  IN IF n = 0 THEN [ok |-> TRUE, v |-> <<>>]
     ELSE IF n >= Len(vals) THEN [ok |-> FALSE]
     ELSE IF \E k \in 1..n : size(k) \notin {4, 8} \/ ~r(k).ok THEN [ok |-> FALSE]
     ELSE [ok |-> TRUE, v |-> [k \in 1..n |-> r(k).t]]
Backtrace(D) ==
  LET ids == D[4] n == D[5]
      o1 == 6 + 16 * ids
      ix(k) == D[o1 + 4 * n + k]
  IN IF ~Fits(D, 0, 6) THEN [ok |-> FALSE]
     ELSE IF ~Fits(D, 6, 16 * ids + 5 * n) THEN [ok |-> FALSE]
     ELSE IF \E k \in 1..n : ix(k) # 255 /\ ix(k) >= ids THEN [ok |-> FALSE]
     ELSE [ok |-> TRUE, v |-> [k \in 1..n |-> [id |-> IF ix(k) = 255 THEN Zeros(16) ELSE Sub(D, 6 + 16 * ix(k), 16), off |-> IntV(LE(D, o1 + 4 * (k - 1), 4))]]]

(* the image and the string of a reference:                                  *)
(* [ok, have, id, path, string, text]                                        *)
NoImage == [ok |-> TRUE, have |-> FALSE, id |-> NONE, path |-> NONE, string |-> NONE, text |-> <<>>]
BadImage == [NoImage EXCEPT !.ok = FALSE]
Image(p, kind, d, ref, dyn) ==   \* d: the located parts of the tracepoint
  LET entry == IF p = <<>> THEN <<>> ELSE First(p[1].uuids, LAMBDA u : d.upper = u.upper /\ Within(d.lower, u.lower, u.size))
      id == CASE kind = 2 -> IF p = <<>> THEN NONE ELSE p[1].main
              [] kind \in {4, 12} -> IF p = <<>> THEN NONE ELSE p[1].dsc
              [] kind = 8 -> st.uuids[entry[1].index + 1]
              [] OTHER -> d.ident
      base == IF kind = 8 THEN AddN(entry[1].lower, Norm(ShlN(entry[1].upper, 32))) ELSE <<>>
      plain == [NoImage EXCEPT !.have = TRUE, !.id = id, !.text = base]
      uf == FileOf(S.uuid, id)
      tf == TextFile(uf[1])
      hit == First(tf.ranges, LAMBDA r : Within(ref, r.at, r.size))
      str == CStrIn(uf[1], AddN(hit[1].data, SubN(ref, hit[1].at)))
      df == FileOf(S.dsc, id)
      ds == DscFile(df[1])
      dhit == First(ds.ranges, LAMBDA r : IF dyn THEN Within(ref, r.text, r.tsize) ELSE Within(ref, r.at, r.size))
      dstr == IF dyn THEN <<TRUE, Lit("%s")>> ELSE CStrIn(df[1], AddN(dhit[1].data, SubN(ref, dhit[1].at)))
      found == IF df = <<>> THEN plain
               ELSE IF ~ds.ok THEN BadImage
               ELSE IF dhit = <<>> THEN plain
               ELSE IF ~dstr[1] THEN BadImage
               ELSE [ok |-> TRUE, have |-> TRUE, id |-> dhit[1].id, path |-> dhit[1].path, string |-> dstr[2], text |-> dhit[1].text]
      odd == d.large # <<>> /\ d.shared # <<>> /\ d.large # Norm(ShrN(d.shared, 1))
  IN IF kind \notin {2, 4, 8, 10, 12} THEN BadImage
     ELSE IF kind = 8 /\ entry = <<>> THEN NoImage
     ELSE IF kind = 8 /\ entry[1].index >= Len(st.uuids) THEN BadImage
     ELSE IF id = NONE THEN BadImage
     ELSE IF kind \in {2, 8, 10}
          THEN IF uf = <<>> THEN plain
               ELSE IF ~tf.ok THEN BadImage
               ELSE IF dyn THEN [plain EXCEPT !.path = tf.path, !.string = Lit("%s")]
               ELSE IF hit = <<>> THEN [plain EXCEPT !.path = tf.path, !.text = Norm(ShlN(d.large, 31))]
               ELSE IF ~str[1] THEN BadImage
               ELSE [plain EXCEPT !.path = tf.path, !.string = str[2]]
     ELSE IF odd /\ found.ok THEN [found EXCEPT !.id = id, !.text = <<>>, !.path = <<>>]
     ELSE found
(* a reference and whether it is dynamic                                     *)
Reference(low, high) == [dyn |-> Len(low) = 4 /\ low[4] >= 128,
                         ref |-> OrN(IF Len(low) = 4 THEN Norm([low EXCEPT ![4] = @ % 128]) ELSE low, Norm(ShlN(high, 31)))]
Counter(d, text) ==
  LET a == AddN(Norm(ShlN(d.upper, 32)), d.lower)
      b == IF d.shared # <<>>
           THEN IF d.large # <<>> /\ d.large # Norm(ShrN(d.shared, 1)) THEN Norm(ShlN(d.large, 32)) ELSE Norm(ShlN(d.shared, 31))
           ELSE Norm(ShlN(d.large, 31))
  IN Diff(OrN(a, b), text)

(* --- one tracepoint: [ok, entry] ----------------------------------------- *)
Oversize(key, ref) == LET H == {k \in 1..Len(st.over) : st.over[k].key = key /\ st.over[k].ref = ref} IN
                      IF H = {} THEN <<>> ELSE <<st.over[CHOOSE k \in H : \A j \in H : j <= k]>>
Fire == st.fire
TP == Fire.data
SubSystem(p, id) ==
  LET H == IF p = <<>> \/ id = NONE THEN {} ELSE {k \in 1..Len(p[1].subs) : p[1].subs[k].id = id}
      s == p[1].subs[CHOOSE k \in H : \A j \in H : j <= k]
      str(o) == LET G == {k \in 1..Len(st.strs) : st.strs[k].at = o} IN IF G = {} THEN NONE ELSE st.strs[CHOOSE k \in G : TRUE].s
  IN IF H = {} THEN [cat |-> NONE, sub |-> NONE] ELSE [cat |-> str(s.cat), sub |-> str(s.sub)]
FAILED == [ok |-> FALSE]
Tracepoint(o) ==
  LET rt == TP[o + 1] lt == TP[o + 2] fl == LEi(TP, o + 2, 2)
      size == LEi(TP, o + 22, 2)
      D == Sub(TP, o + 24, size)
      p == Fire.proc
      parts == Parts(rt, lt, fl)
      Wide(name) == LET a == Start(parts, name, 0) w == CHOOSE w \in 1..16 : \E k \in 1..Len(parts) : parts[k][1] = name /\ parts[k][2] = w IN
                    IF a < 0 THEN <<>> ELSE LE(D, a, w)
      Has(name) == \E k \in 1..Len(parts) : parts[k][1] = name
      Get(name) == IF Has(name) THEN Wide(name) ELSE <<>>
      Is(name) == Has(name) /\ Start(parts, name, 0) >= 0
      head == Total(parts)
      own == IF rt \in {4, 6} THEN Items(D, head, D[head], <<>>) ELSE [ok |-> TRUE, items |-> <<>>, next |-> head]
      kind == AndM(fl, 14)
      d == [lower |-> Get("lower"), upper |-> Get("upper"), large |-> Get("large"), shared |-> Get("shared"),
            ident |-> IF Is("ident") THEN Sub(D, Start(parts, "ident", 0), 16) ELSE NONE]
      ct == AddN(LE(TP, o + 16, 6), Fire.base)
      pimg == ProcImage(p)
      base == [Blank EXCEPT !.mach = IntV(ct), !.pimage = pimg.id, !.thread = IntV(LE(TP, o + 8, 8)), !.time = Time(ct), !.trace = IntV(LE(TP, o, 8)),
                            !.type = CASE rt = 2 -> (IF lt = 1 THEN Lit("activityCreateEvent") ELSE Lit("userActionEvent"))
                                       [] rt = 3 -> Lit("traceEvent") [] rt = 4 -> Lit("logEvent") [] rt = 6 -> Lit("signpostEvent") [] OTHER -> Lit("lossEvent")]
      lost == [base EXCEPT !.message = Lit("lost >=") \o Dec(Get("count")) \o Lit(" unreliable messages from ") \o Dec(Get("start")) \o <<45>> \o Dec(Get("end"))
                                       \o Lit(" (Mach continuous exact start-approx. end)"),
                           !.count = IntV(Get("count")), !.endmach = IntV(Get("end")), !.endtime = Time(Get("end")),
                           !.startmach = IntV(Get("start")), !.starttime = Time(Get("start"))]
      r == Reference(LE(TP, o + 4, 4), IF d.shared # <<>> THEN d.shared ELSE d.large)
      img == Image(p, kind, d, r.ref, r.dyn)
      over == IF Get("ref") = <<>> THEN <<>> ELSE Oversize(Fire.key, Get("ref"))
      items == IF Get("ref") = <<>> THEN own.items ELSE IF over = <<>> THEN <<>> ELSE over[1].items
      pub == IF over = <<>> THEN Slice(D, own.next, Len(D)) ELSE over[1].pub
      priv == IF over = <<>> THEN Fire.priv ELSE over[1].priv
      shift == IF Is("range") THEN LEi(D, Start(parts, "range", 0), 2) - Fire.virtual ELSE 0
      back == IF rt \in {2, 4, 6} /\ HasBit(fl, 12) THEN Backtrace(pub) ELSE [ok |-> TRUE, v |-> <<>>]
      vals == IF rt = 3 THEN TraceValues(Slice(D, 4, Len(D)), D[Len(D)], img) ELSE ItemValues(items, img, pub, priv, shift, <<>>)
      sub == SubSystem(p, IF Is("subsys") THEN Get("subsys") ELSE NONE)
      pc == Counter(d, img.text)
      nref == Reference(Get("name"), Get("nameup"))
      nimg == IF nref.ref = <<>> THEN NoImage ELSE Image(p, kind, d, nref.ref, nref.dyn)
      common == [base EXCEPT !.frames = IF back.v # <<>> THEN back.v ELSE IF img.have THEN <<[id |-> img.id, off |-> pc]>> ELSE <<>>,
                             !.category = sub.cat, !.sub = sub.sub, !.format = img.string, !.pid = PidOf(p), !.ppath = pimg.path,
                             !.image = img.id, !.path = img.path, !.pc = pc, !.ttl = IntV(Get("ttl")), !.message = Message(img, vals.v),
                             !.level = IF rt = 6 THEN NONE ELSE Level(lt),
                             !.activity = IntV(Bits63(Get(IF rt = 2 THEN "new" ELSE "current")))]
      entry == CASE rt = 2 -> [common EXCEPT !.creator = IF lt = 1 THEN IntV(Get("current")) ELSE NONE, !.parent = IntV(Bits63(Get("other")))]
                 [] rt = 6 -> [common EXCEPT !.spid = IntV(Get("signpost")), !.spname = nimg.string, !.spscope = Lit(<<"thread", "process", "system">>[lt \div 64]),
                                             !.sptype = Lit(<<"event", "begin", "end">>[(lt % 16) + 1])]
                 [] OTHER -> common
  IN IF lt \notin LogTypes(rt) \/ OrM(fl, Allowed(rt)) # Allowed(rt) \/ D = <<>> \/ head > Len(D) THEN FAILED
     ELSE IF ~own.ok \/ ~pimg.ok THEN FAILED
     ELSE IF rt = 7 THEN [ok |-> TRUE, entry |-> lost]
     ELSE IF ~img.ok \/ ~back.ok THEN FAILED
     ELSE IF ~vals.ok \/ ~nimg.ok THEN FAILED
     ELSE [ok |-> TRUE, entry |-> entry]

(* --- the file ------------------------------------------------------------ *)
Align8(n) == n + Pad(n, 8)
InitSt == /\ st = [pc |-> "header", off |-> 0, boot |-> <<>>, start |-> ZERO, tb |-> <<>>, sync |-> NoSync, i |-> 0, cat |-> FALSE, uuids |-> <<>>, strs |-> <<>>, procs |-> <<>>,
                   over |-> <<>>, set |-> <<>>, end |-> 0, at |-> 0, next |-> 0, fire |-> <<>>]
          /\ ev = <<>>
Go(next, events) == st' = next /\ ev' = events /\ UNCHANGED sc
Fail == Go([st EXCEPT !.pc = "fail"], <<>>)
Utf8In(D, o, n) == Utf8(UpToNul(Sub(D, o, n)))

Header ==
  /\ st.pc = "header"
  /\ LET size == LEi(F, 8, 8)
         boot == Sub(F, 144, 16)
         sync == SyncAll(1, boot, NoSync)
         secs == TwosC(Sub(F, 32, 4))
         num == IF sync.found THEN sync.boot.num ELSE LE(F, 16, 4)
         den == IF sync.found THEN sync.boot.den ELSE LE(F, 20, 4)
     IN IF ~Fits(F, 0, 224) THEN Fail
        ELSE IF LEi(F, 56, 4) # 24832 \/ LEi(F, 72, 4) # 24833 \/ LEi(F, 136, 4) # 24834 \/ LEi(F, 168, 4) # 24835 THEN Fail
        ELSE IF ~Utf8In(F, 88, 16)[1] \/ ~Utf8In(F, 104, 32)[1] \/ ~Utf8In(F, 176, 48)[1] THEN Fail
        ELSE IF F[53] % 2 = 0 \/ LE(F, 20, 4) = <<>> \/ ~sync.ok \/ den = <<>> THEN Fail
        ELSE Go([st EXCEPT !.pc = "boot", !.off = IF size >= BIG - 64 THEN BIG ELSE Align8(16 + size), !.boot = boot, !.sync = sync, !.tb = Ratio(num, den),
                           !.start = <<secs[1]>> \o Norm(MulN(Norm(Tail(secs)), <<0, 202, 154, 59>>))], <<>>)
Boot ==
  /\ st.pc = "boot"
  /\ Go([st EXCEPT !.pc = "sync"],
        IF ~st.sync.found THEN <<>>
        ELSE <<[Blank EXCEPT !.message = Lit("=== system boot: ") \o Upper(Uuid(st.boot)), !.type = Lit("timesyncEvent"), !.mach = ZERO, !.thread = ZERO,
                             !.time = AddS(st.sync.boot.time, <<>>), !.trace = ZERO]>>)
Adjusted ==
  /\ st.pc = "sync" /\ st.i < Len(st.sync.recs)
  /\ LET r == st.sync.recs[st.i + 1] IN
     Go([st EXCEPT !.i = @ + 1],
        <<[Blank EXCEPT !.message = Lit("=== system wallclock time adjusted"), !.type = Lit("timesyncEvent"), !.mach = IntV(r.kernel), !.parent = ZERO, !.thread = ZERO,
                        !.time = AddS(r.time, <<>>), !.trace = ZERO]>>)
Synced == st.pc = "sync" /\ st.i = Len(st.sync.recs) /\ Go([st EXCEPT !.pc = "chunk"], <<>>)

AtEnd == st.pc = "chunk" /\ st.off >= Len(F) /\ Go([st EXCEPT !.pc = "ok"], <<>>)
Tag == LEi(F, st.off, 4)
Body == st.off + 16
After == LET size == LEi(F, st.off + 8, 8) IN IF size >= BIG - Len(F) - 64 THEN BIG ELSE Align8(Body + size)
InChunk == st.pc = "chunk" /\ st.off < Len(F)
BadChunk == InChunk /\ (~Fits(F, st.off, 16) \/ Tag \notin {24587, 24589}) /\ Fail

(* a catalog: identifiers, strings, processes, descriptions of chunk sets    *)
RECURSIVE CatStrings(_, _, _, _)
CatStrings(o, at, size, acc) ==
  IF at >= size THEN [ok |-> TRUE, strs |-> acc, next |-> o + at]
  ELSE LET rest == IF o + at >= Len(F) THEN <<>> ELSE SubSeq(F, o + at + 1, Len(F))
           z == IndexOfVal(rest, 0)
           s == Utf8(SubSeq(rest, 1, z - 1))
       IN IF z = 0 THEN [ok |-> FALSE] ELSE IF ~s[1] THEN [ok |-> FALSE]
          ELSE CatStrings(o, at + z, size, Append(acc, [at |-> at, s |-> s[2]]))
Signed16(o) == LET n == LEi(F, o, 2) IN IF n >= 32768 THEN n - 65536 ELSE n
RECURSIVE CatProcs(_, _, _, _)
CatProcs(o, n, ids, acc) ==
  IF n = 0 THEN [ok |-> TRUE, procs |-> acc, next |-> o]
  ELSE LET nu == LEi(F, o + 32, 4)
           so == o + 40 + 16 * nu
           ns == LEi(F, so, 4)
           end == o + Align8(48 + 16 * nu + 6 * ns)
           uid(k) == IF k < 0 THEN NONE ELSE ids[k + 1]
           U(k) == LET a == o + 40 + 16 * (k - 1) IN [size |-> LE(F, a, 4), index |-> LEi(F, a + 8, 2), lower |-> LE(F, a + 10, 4), upper |-> LE(F, a + 14, 2)]
           B(k) == LET a == so + 8 + 6 * (k - 1) IN [id |-> LE(F, a, 2), sub |-> LEi(F, a + 2, 2), cat |-> LEi(F, a + 4, 2)]
           key == Sub(F, o + 8, 12)
       IN IF ~Fits(F, o, 40) \/ nu > Len(F) THEN FAILED
          ELSE IF ~Fits(F, so, 8) \/ ns > Len(F) THEN FAILED
          ELSE IF end > Len(F) THEN FAILED
          ELSE IF Signed16(o + 4) >= Len(ids) \/ Signed16(o + 6) >= Len(ids) \/ (\E k \in 1..Len(acc) : acc[k].key = key) THEN FAILED
          ELSE CatProcs(end, n - 1, ids, Append(acc, [key |-> key, main |-> uid(Signed16(o + 4)), dsc |-> uid(Signed16(o + 6)), pid |-> LE(F, o + 20, 4),
                                                      uuids |-> [k \in 1..nu |-> U(k)], subs |-> [k \in 1..ns |-> B(k)]]))
RECURSIVE CatSets(_, _)
CatSets(o, n) ==
  IF n = 0 THEN TRUE
  ELSE LET a == LEi(F, o + 24, 4) b == LEi(F, o + 28 + 2 * a, 4) end == o + Align8(32 + 2 * a + 2 * b)
       IN IF ~Fits(F, o, 28) \/ a > Len(F) THEN FALSE
          ELSE IF ~Fits(F, o + 28 + 2 * a, 4) \/ b > Len(F) THEN FALSE
          ELSE end <= Len(F) /\ CatSets(end, n - 1)
Catalog ==
  /\ InChunk /\ Fits(F, st.off, 16) /\ Tag = 24587
  /\ LET o == Body
         n == LEi(F, o, 2) \div 16
         size == LEi(F, o + 2, 2) - LEi(F, o, 2)
         ids == [k \in 1..n |-> Sub(F, o + 24 + 16 * (k - 1), 16)]
         strs == CatStrings(o + 24 + 16 * n, 0, size, <<>>)
         procs == CatProcs(strs.next, LEi(F, o + 4, 2), ids, <<>>)
     IN IF ~Fits(F, o, 24) THEN Fail
        ELSE IF ~Fits(F, o + 24, 16 * n) \/ size < 0 THEN Fail
        ELSE IF ~strs.ok THEN Fail
        ELSE IF ~procs.ok THEN Fail
        ELSE IF ~CatSets(procs.next, LEi(F, o + 8, 2)) THEN Fail
        ELSE Go([st EXCEPT !.off = After, !.cat = TRUE, !.uuids = ids, !.strs = strs.strs, !.procs = procs.procs], <<>>)

(* a chunk set, which can be compressed                                      *)
ChunkSet ==
  /\ InChunk /\ Fits(F, st.off, 16) /\ Tag = 24589
  /\ LET o == Body
         size == LEi(F, st.off + 8, 8)
         sig == Sub(F, o, 4)
         usize == LEi(F, o + 4, 4)
         lz == IF \E k \in 1..Len(S.lz) : S.lz[k].at = o THEN S.lz[CHOOSE k \in 1..Len(S.lz) : S.lz[k].at = o] ELSE [at |-> o, ok |-> FALSE, data |-> <<>>]
         end == IF sig = Lit("bv41") THEN 12 + MinOf(LEi(F, o + 8, 4), BIG - 64) ELSE 8 + MinOf(usize, BIG - 64)
         set == IF sig = Lit("bv41") THEN lz.data ELSE Slice(Sub(F, o, size), 8, end)
     IN IF size > Len(F) - o \/ ~Fits(F, o, 12) THEN Fail
        ELSE IF sig \notin {Lit("bv41"), Lit("bv4-")} \/ (sig = Lit("bv41") /\ ~lz.ok) THEN Fail
        ELSE IF Slice(Sub(F, o, size), end, end + 4) # Lit("bv4$") THEN Fail
        ELSE Go([st EXCEPT !.pc = "set", !.off = After, !.set = set, !.end = usize, !.at = 0], <<>>)
SetEnd == st.pc = "set" /\ st.at >= st.end /\ Go([st EXCEPT !.pc = "chunk", !.set = <<>>], <<>>)
InSet == st.pc = "set" /\ st.at < st.end
CTag == LEi(st.set, st.at, 4)
CSize == LEi(st.set, st.at + 8, 8)
CData == Slice(st.set, st.at + 16, IF CSize >= BIG - Len(st.set) - 64 THEN BIG ELSE st.at + 16 + CSize)
CNext == IF CSize >= BIG - Len(st.set) - 64 THEN BIG ELSE Align8(st.at + 16 + CSize)
CFits == Fits(st.set, st.at, 16)
NoHeader == InSet /\ ~CFits /\ Fail
Skip == InSet /\ CFits /\ CTag \notin 24577..24580 /\ Go([st EXCEPT !.at = CNext], <<>>)

OversizeChunk ==
  /\ InSet /\ CFits /\ CTag = 24578
  /\ LET D == CData
         it == Items(D, 34, D[34], <<>>)
         a == it.next
         b == a + LEi(D, 28, 2)
     IN IF ~Fits(D, 0, 34) THEN Fail
        ELSE IF ~it.ok THEN Fail
        ELSE Go([st EXCEPT !.at = CNext, !.over = Append(@, [key |-> Sub(D, 0, 12), ref |-> LE(D, 24, 4), items |-> it.items, pub |-> Slice(D, a, b),
                                                             priv |-> Slice(D, b, b + LEi(D, 30, 2))])], <<>>)

SimpleDump ==
  /\ InSet /\ CFits /\ CTag = 24580
  /\ LET D == CData
         n == LEi(D, 76, 4) m == LEi(D, 80, 4)
         sub == Utf8In(D, 84, n) msg == Utf8In(D, 84 + n, m)
         p == ProcOf(D)
         img == ProcImage(p)
         ct == LE(D, 16, 8)
         sender == Sub(D, 40, 16)
     IN IF ~Fits(D, 0, 84) \/ n > Len(D) \/ m > Len(D) THEN Fail
        ELSE IF ~Fits(D, 84, n + m) THEN Fail
        ELSE IF ~sub[1] \/ ~msg[1] \/ (p = <<>> /\ S.strict) \/ ~img.ok THEN Fail
        ELSE Go([st EXCEPT !.at = CNext],
                <<[Blank EXCEPT !.frames = <<[id |-> sender, off |-> IntV(LE(D, 32, 8))]>>, !.message = msg[2], !.type = Lit("logEvent"), !.mach = IntV(ct), !.level = Level(D[14]),
                                !.pid = PidOf(p), !.pimage = img.id, !.ppath = img.path, !.sub = sub[2], !.image = sender, !.pc = IntV(LE(D, 32, 8)),
                                !.thread = IntV(LE(D, 24, 8)), !.time = Time(ct), !.trace = ZERO]>>)

StateDump ==
  /\ InSet /\ CFits /\ CTag = 24579
  /\ LET D == CData
         n == LEi(D, 52, 4)
         lib == Utf8In(D, 56, 64) dec == Utf8In(D, 120, 64) title == Utf8In(D, 184, 64)
         name == lib[2] \o <<58>> \o dec[2]
         r == DecodeBy(<<name>>, Sub(D, 248, n), NoOp)
         three == LEi(D, 48, 4) = 3
         p == ProcOf(D)
         img == ProcImage(p)
         ct == LE(D, 16, 8)
         sender == Sub(D, 32, 16)
     IN IF ~Fits(D, 0, 248) \/ n > Len(D) THEN Fail
        ELSE IF ~Fits(D, 248, n) \/ ~title[1] \/ (p = <<>> /\ S.strict) \/ ~img.ok THEN Fail
        ELSE IF three /\ (~lib[1] \/ ~dec[1]) THEN Fail
        ELSE IF three /\ ~r.ok THEN Fail
        ELSE Go([st EXCEPT !.at = CNext],
                <<[Blank EXCEPT !.activity = IntV(Bits63(LE(D, 24, 8))), !.frames = <<[id |-> sender, off |-> ZERO]>>, !.message = IF three THEN title[2] \o <<10>> \o r.t ELSE <<>>,
                                !.type = Lit("stateEvent"), !.mach = IntV(ct), !.pid = PidOf(p), !.pimage = img.id, !.ppath = img.path, !.image = sender,
                                !.time = Time(ct), !.trace = ZERO]>>)

(* a firehose chunk: the tracepoints of a process                            *)
FirehoseChunk ==
  /\ InSet /\ CFits /\ CTag = 24577
  /\ LET D == CData
         p == ProcOf(D)
         v == LEi(D, 18, 2) % 4096
     IN IF ~Fits(D, 0, 32) \/ (st.cat /\ p = <<>>) THEN Fail
        ELSE Go([st EXCEPT !.pc = "fire", !.i = 32, !.next = CNext,
                           !.fire = [key |-> Sub(D, 0, 12), proc |-> p, data |-> D, public |-> LEi(D, 16, 2), virtual |-> v, base |-> LE(D, 24, 8),
                                     priv |-> IF v = 0 THEN <<>> ELSE Slice(D, v - 4096, Len(D))]], <<>>)
FireEnd == st.pc = "fire" /\ st.i >= Fire.public /\ Go([st EXCEPT !.pc = "set", !.at = st.next, !.fire = <<>>], <<>>)
FireNext == st.i + Align8(24 + LEi(TP, st.i + 22, 2))
Log ==
  /\ st.pc = "fire" /\ st.i < Fire.public
  /\ IF ~Fits(TP, st.i, 24) THEN Fail
     ELSE IF FireNext > Len(TP) THEN Fail
     ELSE IF TP[st.i + 1] = 0 THEN Go([st EXCEPT !.i = FireNext], <<>>)
     ELSE IF TP[st.i + 1] \notin {2, 3, 4, 6, 7} THEN Fail
     ELSE LET t == Tracepoint(st.i) IN IF ~t.ok THEN Fail ELSE Go([st EXCEPT !.i = FireNext], <<t.entry>>)

Next == Header \/ Boot \/ Adjusted \/ Synced \/ AtEnd \/ BadChunk \/ Catalog \/ ChunkSet \/ SetEnd \/ NoHeader \/ Skip \/ OversizeChunk \/ SimpleDump \/ StateDump
        \/ FirehoseChunk \/ FireEnd \/ Log
Done == st.pc \in {"ok", "fail"}
Outcomes == IF st.pc = "ok" THEN {"ok"} ELSE {"ParseError"}
-----------------------------------------------------------------------------
Entries == {ev[k] : k \in {j \in 1..Len(ev) : ev[j].k = "!entry"}}
(* every entry is of the boot of the file and has a time and a type          *)
OfBoot == \A e \in Entries : e.boot = Sub(F, 144, 16) /\ e.time # NONE /\ e.type # NONE /\ e.mach # NONE
(* an image is named only by the identifiers of the catalog or of the entry  *)
PathHasImage == \A e \in Entries : e.path # NONE => e.image # NONE
(* activities have no flag bit                                               *)
Masked == \A e \in Entries : e.activity # NONE => (Len(e.activity) < 9 \/ e.activity[9] < 128)
=============================================================================
