-------------------------------- MODULE Asl ---------------------------------
(* Apple System Log: a header, then records chained by file offsets.  The   *)
(* four standard strings and the extra fields are 64-bit string references: *)
(* 0 = absent, top bit set = up to 7 bytes stored in the reference itself,  *)
(* otherwise the offset of a sized string elsewhere in the file.            *)
EXTENDS Text

CONSTANT Src(_)
VARIABLES sc, st, ev
vars == <<sc, st, ev>>
F == Src(sc)

ABSENT == <<-1>>
Shown(v) == IF v = ABSENT THEN NoneText ELSE v

SIG == <<65, 83, 76, 32, 68, 66, 0, 0, 0, 0, 0, 0>>
HeaderTable ==
  << Field("Signature", 0, 12, "stream"), Field("Format version", 12, 4, "dec"),
     Field("First log entry offset", 16, 8, "hex8"), Field("Creation time", 24, 8, "posix"),
     Field("Cache size", 32, 4, "dec"), Field("Last log entry offset", 36, 8, "hex8"),
     Field("Unknown1", 44, 36, "dump") >>
RecordTable ==
  << Field("Unknown1", 0, 2, "hex8"), Field("Data size", 2, 4, "dec"),
     Field("Next record offset", 6, 8, "hex8"), Field("Message identifier", 14, 8, "hex8"),
     Field("Written time", 22, 8, "posix"), Field("Written time nanoseconds", 30, 4, "dec"),
     Field("Alert level", 34, 2, "dec"), Field("Flags", 36, 2, "hex4"),
     Field("Process identifier (PID)", 38, 4, "dec"), Field("User identifier (UID)", 42, 4, "sdec"),
     Field("Group identifier (GID)", 46, 4, "sdec"), Field("Read user identifier (UID)", 50, 4, "sdec"),
     Field("Read group identifier (GID)", 54, 4, "sdec"),
     Field("Reference process identifier (PID)", 58, 8, "dec"),
     Field("Hostname string offset", 66, 8, "hex8"), Field("Sender string offset", 74, 8, "hex8"),
     Field("Facility string offset", 82, 8, "hex8"), Field("Message string offset", 90, 8, "hex8") >>
ExtraTable == << Field("Name string offset", 0, 8, "hex8"), Field("Value string offset", 8, 8, "hex8") >>

RSIZE == 98

(* A string reference r (8 bytes, big endian): its value, what is reported  *)
(* while resolving it, and where the file position ends up.                 *)
Resolve(r, cur) ==
  IF AllZero(r) THEN [ok |-> TRUE, val |-> ABSENT, ev |-> <<>>, cur |-> cur]
  ELSE IF r[1] >= 128
  THEN LET flag == r[1] \div 16
           n == r[1] % 16
           u == Utf8(Sub(r, 1, n))
       IN IF flag # 8 \/ n >= 8 \/ ~u[1] THEN [ok |-> FALSE]
          ELSE [ok |-> TRUE, val |-> u[2], cur |-> cur,
                ev |-> <<Ln("Inline string flag", Hex(Nat2(flag), 1)), Ln("Inline string size", DecI(n)),
                         Ln("Inline string", u[2])>>]
  ELSE LET o == Sat(Rev(r))
           n == BEi(F, o + 2, 4)
           u == Utf8(Sub(F, o + 6, n))
       IN IF ~Fits(F, o, 6) \/ ~Fits(F, o + 6, n) \/ ~u[1] THEN [ok |-> FALSE]
          ELSE [ok |-> TRUE, val |-> RStrip0(u[2]), cur |-> o + 6 + n,
                ev |-> <<At("record string", o), Ln("Unknown1", Hex(BE(F, o, 2), 8)),
                         Ln("String size", DecI(n)), Ln("String", RStrip0(u[2]))>>]

InitSt == st = [pc |-> "header", off |-> 0, cur |-> 0, seen |-> {}, vals |-> <<>>, x |-> 0, extra |-> <<>>] /\ ev = <<>>
Fail == st' = [st EXCEPT !.pc = "fail"] /\ ev' = <<>>

ReadHeader ==
  /\ st.pc = "header"
  /\ IF ~Fits(F, 0, 80) \/ Sub(F, 0, 12) # SIG THEN Fail
     ELSE /\ st' = [st EXCEPT !.pc = IF AllZero(Sub(F, 16, 8)) THEN "done" ELSE "chain",
                              !.off = BEi(F, 16, 8), !.cur = 80]
          /\ ev' = <<At("file header", 0)>> \o Fields(F, 0, TRUE, HeaderTable)
  /\ UNCHANGED sc

(* the chain ends at a zero offset or at one outside of the file            *)
EndOfChain ==
  /\ st.pc = "chain" /\ (st.off = 0 \/ st.off >= Len(F))
  /\ st' = [st EXCEPT !.pc = "done"] /\ ev' = <<>>
  /\ UNCHANGED sc

ReadRecord ==
  /\ st.pc = "chain" /\ st.off # 0 /\ st.off < Len(F)
  /\ IF st.off \in st.seen \/ st.off < st.cur \/ ~Fits(F, st.off, RSIZE) THEN Fail
     ELSE /\ st' = [st EXCEPT !.pc = "strings", !.seen = @ \cup {st.off}, !.cur = st.off + RSIZE,
                              !.vals = <<>>, !.x = 0, !.extra = <<>>]
          /\ ev' = <<Hexd("Record strings data", Sub(F, st.cur, st.off - st.cur)), At("record", st.off)>>
                   \o Fields(F, st.off, TRUE, RecordTable)
  /\ UNCHANGED sc

(* hostname, sender, facility and message, in this order                    *)
ReadString ==
  /\ st.pc = "strings" /\ Len(st.vals) < 4
  /\ LET r == Resolve(Sub(F, st.off + 66 + 8 * Len(st.vals), 8), st.cur) IN
     IF ~r.ok THEN Fail
     ELSE st' = [st EXCEPT !.vals = Append(@, r.val), !.cur = r.cur] /\ ev' = r.ev
  /\ UNCHANGED sc

AddSize == BEi(F, st.off + 2, 4) + 6 - RSIZE
ReadAdditional ==
  /\ st.pc = "strings" /\ Len(st.vals) = 4
  /\ IF AddSize < 0 \/ AddSize % 8 # 0 \/ ~Fits(F, st.off + RSIZE, AddSize) THEN Fail
     ELSE /\ st' = [st EXCEPT !.pc = "extra", !.cur = st.off + RSIZE + AddSize]
          /\ ev' = <<Hexd("Record additional data", Sub(F, st.off + RSIZE, AddSize))>>
  /\ UNCHANGED sc

(* an extra field with a name replaces an earlier one of the same name      *)
PutExtra(xs, n, v) ==
  IF n = ABSENT THEN xs
  ELSE IF \E i \in 1..Len(xs) : xs[i][1] = n
  THEN [i \in 1..Len(xs) |-> IF xs[i][1] = n THEN <<n, v>> ELSE xs[i]]
  ELSE Append(xs, <<n, v>>)

ReadExtra ==
  /\ st.pc = "extra" /\ st.x < AddSize - 8
  /\ LET b == st.off + RSIZE + st.x
         n == Resolve(Sub(F, b, 8), st.cur)
         v == Resolve(Sub(F, b + 8, 8), n.cur)
     IN IF ~n.ok \/ ~v.ok THEN Fail
        ELSE /\ st' = [st EXCEPT !.x = @ + 16, !.cur = v.cur, !.extra = PutExtra(@, n.val, v.val)]
             /\ ev' = Fields(F, b, TRUE, ExtraTable) \o n.ev \o v.ev
  /\ UNCHANGED sc

ReportRecord ==
  /\ st.pc = "extra" /\ st.x >= AddSize - 8
  /\ st' = [st EXCEPT !.pc = "chain", !.off = BEi(F, st.off + 6, 8)]
  /\ ev' = <<Ln("Hostname", Shown(st.vals[1])), Ln("Sender", Shown(st.vals[2])),
             Ln("Facility", Shown(st.vals[3])), Ln("Message", Shown(st.vals[4]))>>
           \o [i \in 1..Len(st.extra) |-> Ln(StrOf(st.extra[i][1]), Shown(st.extra[i][2]))]
  /\ UNCHANGED sc

Next == ReadHeader \/ EndOfChain \/ ReadRecord \/ ReadString \/ ReadAdditional \/ ReadExtra \/ ReportRecord
Done == st.pc \in {"done", "fail"}
Outcomes == IF st.pc = "done" THEN {"ok"} ELSE {"ParseError"}

-----------------------------------------------------------------------------
OnceEach == [][st.pc = "chain" /\ st'.pc = "strings" => st.off \notin st.seen]_vars
InFile == st.pc \in {"strings", "extra"} => Fits(F, st.off, RSIZE)
=============================================================================
