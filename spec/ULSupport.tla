------------------------------ MODULE ULSupport ------------------------------
(* The files that resolve the references of unified logging entries:         *)
(*  dsc       shared-cache strings: ranges of strings, each of an image      *)
(*  uuidtext  the format strings of one image                                *)
(*  timesync  records that relate the continuous time to the wall clock      *)
(* A source is [kind, data, refs]: the file and the references looked up     *)
(* afterwards ([r: 8 bytes, little-endian; d: dynamic]).                     *)
EXTENDS Text
CONSTANT Src(_)
VARIABLES sc, st, ev
vars == <<sc, st, ev>>
S == Src(sc)
F == S.data
N8(o) == Norm(LE(F, o, 8))
N4(o) == Norm(LE(F, o, 4))

InitSt == /\ st = [pc |-> "start", off |-> 0, i |-> 0, n |-> 0, m |-> 0, v |-> 0, ranges |-> <<>>, uuids |-> <<>>, foot |-> <<>>]
          /\ ev = <<>>
Go(next, events) == st' = next /\ ev' = events /\ UNCHANGED sc
Fail(events) == Go([st EXCEPT !.pc = "fail"], events)
AtN(what, nat) == [k |-> "@" \o what, v |-> nat]

(* a NUL terminated UTF-8 string at an offset (a natural number)             *)
CStr(nat) ==
  LET o == Sat(nat)
      rest == IF o >= Len(F) THEN <<>> ELSE SubSeq(F, o + 1, Len(F))
      z == IndexOfVal(rest, 0)
  IN IF z = 0 THEN <<FALSE, <<>>>> ELSE Utf8(SubSeq(rest, 1, z - 1))

(* --- shared-cache strings ------------------------------------------------ *)
DscHeader ==
  /\ st.pc = "start" /\ S.kind = "dsc"
  /\ LET head == << Field("Signature", 0, 4, "stream"), Field("Major format version", 4, 2, "dec"), Field("Minor format version", 6, 2, "dec"),
                    Field("Number of ranges", 8, 4, "dec"), Field("Number of UUIDs", 12, 4, "dec") >>
         major == LEi(F, 4, 2)
     IN IF ~Fits(F, 0, 16) \/ Sub(F, 0, 4) # Lit("hcsd") THEN Fail(<<>>)
        ELSE IF major \notin {1, 2} \/ LEi(F, 6, 2) # 0 THEN Fail(<<At("file header", 0)>> \o Fields(F, 0, FALSE, head))
        ELSE Go([st EXCEPT !.pc = "range", !.off = 16, !.v = major, !.n = LEi(F, 8, 4), !.m = LEi(F, 12, 4)],
                <<At("file header", 0)>> \o Fields(F, 0, FALSE, head))

RSize == IF st.v = 1 THEN 16 ELSE 24
RName == IF st.v = 1 THEN "range descriptor v1" ELSE "range descriptor v2"
RTable == IF st.v = 1
          THEN << Field("Data offset", 8, 4, "hex8"), Field("Range offset", 4, 4, "hex8"), Field("Range size", 12, 4, "dec"), Field("UUID descriptor index", 0, 4, "dec") >>
          ELSE << Field("Data offset", 8, 4, "hex8"), Field("Range offset", 0, 8, "hex8"), Field("Range size", 12, 4, "dec"), Field("UUID descriptor index", 16, 8, "dec") >>
DscRange ==
  /\ st.pc = "range" /\ st.i < st.n
  /\ LET o == st.off IN
     IF ~Fits(F, o, RSize) THEN Fail(<<At(RName, o)>>)
     ELSE Go([st EXCEPT !.i = @ + 1, !.off = @ + RSize,
                        !.ranges = Append(@, [data |-> N4(o + 8), at |-> IF st.v = 1 THEN N4(o + 4) ELSE N8(o), size |-> N4(o + 12),
                                              uuid |-> IF st.v = 1 THEN N4(o) ELSE N8(o + 16)])],
             <<At(RName, o)>> \o Fields(F, o, FALSE, RTable))
DscRangesRead ==
  /\ st.pc = "range" /\ st.i = st.n
  /\ Go([st EXCEPT !.pc = "uuid", !.i = 0], <<>>)

USize == IF st.v = 1 THEN 28 ELSE 32
UName == IF st.v = 1 THEN "UUID descriptor v1" ELSE "UUID descriptor v2"
UW == IF st.v = 1 THEN 4 ELSE 8
UTable == << Field("Text offset", 0, UW, "hex8"), Field("Text size", UW, 4, "dec"), Field("Image identifier", UW + 4, 16, "uuid"), Field("Path offset", UW + 20, 4, "hex8") >>
DscUuid ==
  /\ st.pc = "uuid" /\ st.i < st.m
  /\ LET o == st.off
         p == N4(o + UW + 20)
         path == CStr(p)
         head == <<At(UName, o)>> \o Fields(F, o, FALSE, UTable) \o <<AtN("Image path", p)>>
     IN IF ~Fits(F, o, USize) THEN Fail(<<At(UName, o)>>)
        ELSE IF ~path[1] THEN Fail(head)
        ELSE Go([st EXCEPT !.i = @ + 1, !.off = @ + USize,
                           !.uuids = Append(@, [text |-> Norm(LE(F, o, UW)), size |-> N4(o + UW), id |-> Sub(F, o + UW + 4, 16), path |-> path[2]])],
                head \o <<Ln("Image path", path[2])>>)
UuidOf(r) == st.uuids[Sat(r.uuid) + 1]
RangeEv(r) == [k |-> "!range", data |-> r.data, at |-> r.at, size |-> r.size, uuid |-> r.uuid,
               id |-> UuidOf(r).id, path |-> UuidOf(r).path, text |-> UuidOf(r).text, tsize |-> UuidOf(r).size]
DscRead ==
  /\ st.pc = "uuid" /\ st.i = st.m
  /\ IF \E k \in 1..Len(st.ranges) : Sat(st.ranges[k].uuid) >= Len(st.uuids) THEN Fail(<<>>)
     ELSE Go([st EXCEPT !.pc = "lookup", !.i = 0], [k \in 1..Len(st.ranges) |-> RangeEv(st.ranges[k])])

(* --- the strings of an image --------------------------------------------- *)
UuidTextHeader ==
  /\ st.pc = "start" /\ S.kind = "uuidtext"
  /\ LET n == LEi(F, 12, 4)
         head == << Field("Signature", 0, 4, "stream"), Field("Major format version", 4, 4, "dec"), Field("Minor format version", 8, 4, "dec"), Field("Number of entries", 12, 4, "dec") >>
         Line(j) == [k |-> "text", v |-> <<9, 91>> \o ZeroPadOver(j, 3) \o Lit("] offset: ") \o Hex(N4(16 + 8 * j), 8) \o Lit(", data size: ") \o Dec(N4(20 + 8 * j))]
         shown == <<At("file header", 0)>> \o Fields(F, 0, FALSE, head) \o <<Hexd("Entry descriptors", <<>>)>> \o [j \in 1..n |-> Line(j - 1)]
         RECURSIVE Sum(_)
         Sum(j) == IF j = 0 THEN Nat2(16 + 8 * n) ELSE AddN(Sum(j - 1), N4(20 + 8 * (j - 1)))
         entries == [j \in 1..n |-> [data |-> Sum(j - 1), at |-> N4(16 + 8 * (j - 1)), size |-> N4(20 + 8 * (j - 1))]]
         end == Sum(n)
         foot == CStr(end)
     IN IF ~Fits(F, 0, 16) \/ Sub(F, 0, 4) # <<153, 136, 119, 102>> \/ n > Len(F) \/ ~Fits(F, 16, 8 * n) THEN Fail(<<At("file header", 0)>>)
        ELSE IF LEi(F, 4, 4) # 2 \/ LEi(F, 8, 4) # 1 THEN Fail(shown)
        ELSE IF ~foot[1] THEN Fail(shown \o <<AtN("file footer", end)>>)
        ELSE Go([st EXCEPT !.pc = "lookup", !.i = 0, !.ranges = entries, !.foot = foot[2]],
                shown \o <<AtN("file footer", end), Ln("Image path", foot[2]), [k |-> "!image", path |-> foot[2]]>>)

(* --- lookups: the first range that contains the reference ---------------- *)
Ref == S.refs[st.i + 1]
R == Norm(Ref.r)
Start(r) == IF Ref.d THEN UuidOf(r).text ELSE r.at
Size(r) == IF Ref.d THEN UuidOf(r).size ELSE r.size
Inside(r) == LeN(Start(r), R) /\ LtN(SubN(R, Start(r)), Size(r))
Hits == {k \in 1..Len(st.ranges) : Inside(st.ranges[k])}
Hit == st.ranges[CHOOSE k \in Hits : \A j \in Hits : k <= j]
Label == IF S.kind = "dsc" THEN "String" ELSE "Format string"
Answer(r, s) == IF S.kind = "dsc" THEN [k |-> "!found", path |-> UuidOf(r).path, id |-> UuidOf(r).id, text |-> UuidOf(r).text, s |-> s]
                ELSE [k |-> "!found", s |-> s]
Lookup ==
  /\ st.pc = "lookup" /\ st.i < Len(S.refs)
  /\ IF Hits = {} THEN Go([st EXCEPT !.i = @ + 1], <<[k |-> "!none"]>>)
     ELSE IF Ref.d THEN Go([st EXCEPT !.i = @ + 1], <<Answer(Hit, Lit("%s"))>>)
     ELSE LET o == AddN(Hit.data, SubN(R, Hit.at))
              s == CStr(o)
          IN IF ~s[1] THEN Go([st EXCEPT !.i = @ + 1], <<AtN("string", o), [k |-> "!error"]>>)
             ELSE Go([st EXCEPT !.i = @ + 1], <<AtN("string", o), Ln(Label, s[2]), Answer(Hit, s[2])>>)
Looked ==
  /\ st.pc = "lookup" /\ st.i = Len(S.refs)
  /\ Go([st EXCEPT !.pc = "ok"], <<>>)

(* --- time synchronisation ------------------------------------------------ *)
NanoS(b) == LET s == TwosC(b)
                n == Norm(Tail(s))
                q1 == DivMod(n, 1000) q2 == DivMod(q1[1], 1000) q3 == DivMod(q2[1], 1000)
                frac == q1[2] + 1000 * q2[2] + 1000000 * q3[2]
                secs == IF frac = 0 THEN q3[1] ELSE AddN(q3[1], <<1>>)
            IN IF s[1] = 0 THEN PosixNanoText(n)
               ELSE SubSeq(PosixTextS(<<1>> \o secs), 1, 19) \o <<46>> \o ZeroPadI(IF frac = 0 THEN 0 ELSE 1000000000 - frac, 9) \o UTC
BootTable == << Field("Signature", 0, 2, "stream"), Field("Record size", 2, 2, "dec"), Field("Unknown1", 4, 4, "hex8"), Field("Boot identifier", 8, 16, "uuid"),
                Field("Timebase numerator", 24, 4, "dec"), Field("Timebase denominator", 28, 4, "dec") >>
SyncTable == << Field("Signature", 0, 2, "stream"), Field("Record size", 2, 2, "dec"), Field("Unknown1", 4, 4, "hex8"), Field("Kernel time", 8, 8, "dec") >>
EndTable == << Field("Time zone offset", 8, 4, "sdec"), Field("Daylight saving flag", 12, 4, "dec") >>
Timesync ==
  /\ st.pc = "start" /\ S.kind = "timesync" /\ st.off < Len(F)
  /\ LET o == st.off
         sig == Sub(F, o, 2)
         boot == sig = <<176, 187>>
         size == IF boot THEN 48 ELSE 32
         name == IF boot THEN "boot record" ELSE "sync record"
         t == o + size - 16
         shown == <<At(name, o)>> \o Fields(F, o, FALSE, IF boot THEN BootTable ELSE SyncTable)
                  \o <<Ln("Timestamp", NanoS(Sub(F, t, 8)))>> \o Fields(F, t, FALSE, EndTable)
         rec == IF boot THEN [k |-> "!boot", id |-> Sub(F, o + 8, 16), num |-> N4(o + 24), den |-> N4(o + 28), time |-> TwosC(Sub(F, t, 8)), zone |-> TwosC(Sub(F, t + 8, 4)), dst |-> N4(t + 12)]
                ELSE [k |-> "!sync", kernel |-> N8(o + 8), time |-> TwosC(Sub(F, t, 8)), zone |-> TwosC(Sub(F, t + 8, 4)), dst |-> N4(t + 12)]
     IN IF ~Fits(F, o, 2) \/ (~boot /\ sig # <<84, 115>>) THEN Fail(<<>>)
        ELSE IF ~Fits(F, o, size) THEN Fail(<<At(name, o)>>)
        ELSE IF LEi(F, o + 2, 2) < size THEN Fail(shown)
        ELSE Go([st EXCEPT !.off = @ + LEi(F, o + 2, 2)], Append(shown, rec))
TimesyncEnd ==
  /\ st.pc = "start" /\ S.kind = "timesync" /\ st.off >= Len(F)
  /\ Go([st EXCEPT !.pc = "ok"], <<>>)

Next == DscHeader \/ DscRange \/ DscRangesRead \/ DscUuid \/ DscRead \/ UuidTextHeader \/ Lookup \/ Looked \/ Timesync \/ TimesyncEnd
Done == st.pc \in {"ok", "fail"}
Outcomes == IF st.pc = "ok" THEN {"ok"} ELSE {"ParseError"}
-----------------------------------------------------------------------------
(* a reference is answered from a range that contains it                     *)
Found == ev # <<>> /\ ev[Len(ev)].k = "!found"
Contained == (st.pc = "lookup" /\ Found) =>
  \E r \in {st.ranges[k] : k \in 1..Len(st.ranges)} :
     LET q == S.refs[st.i]
         from == IF q.d THEN UuidOf(r).text ELSE r.at
         size == IF q.d THEN UuidOf(r).size ELSE r.size
     IN LeN(from, Norm(q.r)) /\ LtN(Norm(q.r), AddN(from, size))
(* every range has its image                                                 *)
Resolved == (st.pc = "lookup" /\ S.kind = "dsc") => \A k \in 1..Len(st.ranges) : Sat(st.ranges[k].uuid) < Len(st.uuids)
=============================================================================
