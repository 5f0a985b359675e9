----------------------------- MODULE TraceV3MC ------------------------------
(* A catalog of one process, and one tracepoint of every kind with every     *)
(* place its string can be, every kind of data item and private data, every  *)
(* reference around the bounds of the strings; dumps of a known and of an    *)
(* unknown process; timesync records before, at and after the entry.         *)
EXTENDS TraceV3, Json
CONSTANTS Kinds, Refs, Numbers
MCSrc(x) == x.src
IdA == [i \in 1..16 |-> i]
IdB == [i \in 1..16 |-> 100 + i]
BootId == [i \in 1..16 |-> 200 + i]
Strings == Lit("a%d") \o <<0>> \o Lit("%s%i") \o <<0>>     \* at 0 and 4, of 9 bytes
UText == <<153, 136, 119, 102>> \o EncLE(2, 4) \o EncLE(1, 4) \o EncLE(1, 4) \o EncLE(0, 4) \o EncLE(9, 4) \o Strings \o Lit("/p") \o <<0>>
UDsc == Lit("hcsd") \o EncLE(1, 2) \o EncLE(0, 2) \o EncLE(1, 4) \o EncLE(1, 4)
        \o EncLE(0, 4) \o EncLE(0, 4) \o EncLE(60, 4) \o EncLE(9, 4)
        \o EncLE(0, 4) \o EncLE(16, 4) \o IdA \o EncLE(69, 4) \o Strings \o Lit("/d") \o <<0>>
Block(tag, data) == LET c == EncLE(tag, 4) \o EncLE(17, 4) \o EncLE(Len(data), 8) \o data IN c \o Zeros(Pad(Len(c), 8))
MHead == Block(4096, EncLE(1, 4) \o EncLE(3, 4) \o EncLE(5, 8) \o EncLE(2, 4) \o Zeros(16) \o EncLE(1, 4)
                    \o EncLE(24832, 4) \o EncLE(8, 4) \o EncLE(7, 8)
                    \o EncLE(24833, 4) \o EncLE(56, 4) \o Zeros(8) \o Zeros(48)
                    \o EncLE(24834, 4) \o EncLE(24, 4) \o BootId \o EncLE(88, 4) \o Zeros(4)
                    \o EncLE(24835, 4) \o EncLE(48, 4) \o Zeros(48))
Cat == Block(24587, EncLE(32, 2) \o EncLE(35, 2) \o EncLE(1, 2) \o EncLE(0, 2) \o EncLE(0, 2) \o Zeros(6) \o EncLE(9, 8) \o IdA \o IdB \o Lit("s") \o <<0>> \o <<0>>
                    \o EncLE(0, 2) \o EncLE(0, 2) \o EncLE(0, 2) \o EncLE(1, 2) \o EncLE(1, 8) \o EncLE(10, 4) \o EncLE(77, 4) \o Zeros(8) \o EncLE(1, 4) \o Zeros(4)
                    \o EncLE(16, 4) \o Zeros(4) \o EncLE(1, 2) \o EncLE(4096, 4) \o EncLE(0, 2)
                    \o EncLE(1, 4) \o Zeros(4) \o EncLE(1, 2) \o EncLE(0, 2) \o EncLE(2, 2) \o Zeros(2))
Owner(key) == EncLE(1, 8) \o EncLE(key, 4)
(* the place of the string: flags and what they add                          *)
Places == {"main", "dsc", "abs", "rel", "large", "shared"}
PFlags(p) == CASE p = "main" -> 2 [] p = "dsc" -> 4 [] p = "abs" -> 8 [] p = "rel" -> 10 [] p = "large" -> 32 + 4 [] OTHER -> 32 + 12
PData(p, low) == EncLE(low, 4) \o (CASE p = "abs" -> EncLE(0, 2) [] p = "rel" -> IdA [] p = "large" -> EncLE(1, 2) [] p = "shared" -> EncLE(1, 2) \o EncLE(2, 2) [] OTHER -> <<>>)
Item(t) == CASE t \in RANGED -> <<t, 4>> \o EncLE(1, 2) \o EncLE(2, 2) [] OTHER -> <<t, 4>> \o EncLE(65, 4)
MPoint(kind, lt, flags, ref, body) == LET c == <<kind, lt>> \o EncLE(flags, 2) \o EncLE(ref, 4) \o EncLE(5, 8) \o EncLE(10, 6) \o EncLE(Len(body), 2) \o body IN c \o Zeros(Pad(Len(c), 8))
Log1(s) == MPoint(4, 1, PFlags(s.p) + (IF s.sub THEN 512 ELSE 0) + (IF s.over THEN 2048 ELSE 0), s.ref,
                 PData(s.p, s.low) \o (IF s.sub THEN EncLE(1, 2) ELSE <<>>) \o (IF s.over THEN <<1>> ELSE <<>>) \o <<0, s.n>>
                 \o (IF s.n = 0 THEN <<>> ELSE IF s.n = 1 THEN Item(s.t) ELSE Item(s.t) \o Item(0)) \o Lit("xyz") \o <<0>>)
Act(s) == MPoint(2, s.lt, PFlags(s.p) + s.fl, s.ref, (IF s.fl % 2 = 1 THEN EncLE(7, 7) \o <<128>> ELSE <<>>) \o (IF s.fl >= 16 THEN EncLE(8, 8) ELSE <<>>)
                \o (IF s.lt = 3 THEN <<>> ELSE EncLE(9, 8)) \o PData(s.p, s.low))
Sign(s) == MPoint(6, s.lt, PFlags(s.p) + 32768, s.ref, PData(s.p, s.low) \o EncLE(3, 8) \o EncLE(s.name, 4) \o (IF s.p \in {"large", "shared"} THEN EncLE(0, 2) ELSE <<>>) \o <<0, 1>> \o Item(0))
Tra(s) == MPoint(3, 0, 2, s.ref, EncLE(s.low, 4) \o [i \in 1..(4 * s.n) |-> i] \o [i \in 1..s.n |-> s.size] \o <<s.n>>)
Loss == MPoint(7, 0, 0, 0, EncLE(3, 8) \o EncLE(9, 8) \o EncLE(2, 8))
Priv == Lit("qrst")
Fire1(key, points, private, tail) ==
  Block(24577, Owner(key) \o <<14, 0>> \o Zeros(2) \o EncLE(32 + Len(points), 2) \o EncLE(IF private THEN 4092 ELSE 4096, 2) \o Zeros(4) \o EncLE(100, 8) \o points \o tail \o (IF private THEN Priv ELSE <<>>))
Over1 == Block(24578, Owner(10) \o Zeros(12) \o EncLE(1, 4) \o EncLE(4, 2) \o EncLE(4, 2) \o <<0, 1>> \o Item(34) \o Lit("XYZW") \o Lit("PQRS"))
Simple(key) == Block(24580, Owner(key) \o <<14, 1>> \o Zeros(2) \o EncLE(110, 8) \o EncLE(5, 8) \o EncLE(16, 8) \o IdA \o IdB \o EncLE(4, 4) \o EncLE(2, 4) \o EncLE(3, 4) \o Lit("a") \o <<0>> \o Lit("mn") \o <<0>>)
State(key, kind) == Block(24579, Owner(key) \o <<14, 0>> \o Zeros(2) \o EncLE(110, 8) \o EncLE(5, 8) \o IdA \o EncLE(kind, 4) \o EncLE(4, 4) \o Zeros(128) \o Lit("t") \o Zeros(63) \o EncLE(5, 4))
Set(inner) == Block(24589, Lit("bv4-") \o EncLE(Len(inner), 4) \o inner \o Lit("bv4$"))
BootRec(id) == <<176, 187>> \o EncLE(48, 2) \o Zeros(4) \o id \o EncLE(2, 4) \o EncLE(1, 4) \o EncLE(1000, 8) \o Zeros(8)
SyncRec1(kernel) == <<84, 115>> \o EncLE(32, 2) \o Zeros(4) \o EncLE(kernel, 8) \o EncLE(5000 + kernel, 8) \o Zeros(8)

Logs == [k : {"log"}, p : Places, low : {4096, 4112}, ref : Refs, t : {0, 1, 2, 18, 33, 34, 49, 114, 5}, n : Numbers, sub : BOOLEAN, over : BOOLEAN, priv : BOOLEAN]
Acts == [k : {"act"}, p : Places, low : {4095, 4096}, ref : Refs, lt : {1, 3, 2}, fl : {0, 1, 16, 17, 512, 513}]
Signs == [k : {"sign"}, p : Places, low : {4096}, ref : Refs, lt : {64, 129, 194, 67}, name : Refs]
Tras == [k : {"trace"}, low : {4096}, ref : Refs, n : 0..3, size : {4, 8, 3}]
Dumps == [k : {"dump"}, key : {10, 11}, kind : {1, 3}, strict : BOOLEAN, cat : BOOLEAN]
Syncs == [k : {"sync"}, own : BOOLEAN, a : {0, 109, 110, 111}, b : {0, 109, 110, 111, 112}, other : BOOLEAN]
Scens == Logs \cup Acts \cup Signs \cup Tras \cup Dumps \cup Syncs
Inner(s) == CASE s.k = "log" -> (IF s.over THEN Over1 ELSE <<>>) \o Fire1(10, Log1(s), s.priv, <<>>)
              [] s.k = "act" -> Fire1(10, Act(s), FALSE, <<>>)
              [] s.k = "sign" -> Fire1(10, Sign(s), FALSE, <<>>)
              [] s.k = "trace" -> Fire1(10, Tra(s), FALSE, <<>>)
              [] s.k = "dump" -> Simple(s.key) \o State(s.key, s.kind) \o (IF s.cat THEN <<>> ELSE Fire1(s.key, Loss, FALSE, <<>>))
              [] OTHER -> Fire1(10, Loss, FALSE, <<>>) \o Simple(10)
MkSrc(s) == [data |-> MHead \o (IF s.k = "dump" /\ ~s.cat THEN <<>> ELSE Cat) \o Set(Inner(s)), lz |-> <<>>,
             uuid |-> <<[id |-> IdA, data |-> UText]>>, dsc |-> <<[id |-> IdB, data |-> UDsc]>>,
             sync |-> IF s.k # "sync" THEN <<>> ELSE <<(IF s.other THEN BootRec(IdA) \o SyncRec1(1) ELSE <<>>) \o (IF s.own THEN BootRec(BootId) ELSE <<>>) \o SyncRec1(s.a) \o SyncRec1(s.b)>>,
             strict |-> IF s.k = "dump" THEN s.strict ELSE TRUE]
MCInit == (\E s \in {x \in Scens : x.k \in Kinds} : sc = [src |-> MkSrc(s)]) /\ InitSt
MCSpec == MCInit /\ [][Next]_vars /\ WF_vars(Next)
Terminates == <>Done
MCDump == Done => PrintT("SCEN " \o ToJson([src |-> S]))
=============================================================================
