------------------------------- MODULE Cpio --------------------------------
(* The CPIO archive reader: five header formats, alignment padding, the    *)
(* trailer entry, first-occurrence-wins duplicates and the lookup calls.   *)
EXTENDS Text

CONSTANTS Src(_),        \* bytes of the archive of scenario sc
          Probes(_)      \* sequence of <<kind, path>> lookups made after reading

VARIABLES sc,   \* scenario
          st,   \* reader state
          ev    \* events made visible by the last action
vars == <<sc, st, ev>>

F == Src(sc)

TRAILER == <<84, 82, 65, 73, 76, 69, 82, 33, 33, 33>>

(* The format announced by the first bytes of the file.                    *)
Format(f) ==
  LET s == Sub(f, 0, 6) IN
  CASE Len(s) > 2 /\ Sub(s, 0, 2) = <<113, 199>> -> "bin-big-endian"
    [] Len(s) > 2 /\ Sub(s, 0, 2) = <<199, 113>> -> "bin-little-endian"
    [] s = <<48, 55, 48, 55, 48, 55>> -> "odc"
    [] s = <<48, 55, 48, 55, 48, 49>> -> "newc"
    [] s = <<48, 55, 48, 55, 48, 50>> -> "crc"
    [] OTHER -> "none"

HeaderSize(fmt) == CASE fmt \in {"bin-big-endian", "bin-little-endian"} -> 26
                     [] fmt = "odc" -> 76
                     [] OTHER -> 110
Align(fmt) == CASE fmt \in {"bin-big-endian", "bin-little-endian"} -> 2
                [] fmt = "odc" -> 1
                [] OTHER -> 4

(* Header fields as nats; ok is FALSE when a digit field is malformed.     *)
Header(f, p, fmt) ==
  CASE fmt = "bin-big-endian" ->
       LET W(i) == BE(f, p + 2 * i, 2) L(i) == Norm(Rev(Sub(f, p + 2 * i, 4))) IN
       [ok |-> TRUE, ino |-> W(2), mode |-> W(3), uid |-> W(4), gid |-> W(5),
        mtime |-> L(8), psize |-> W(10), fsize |-> L(11), dev |-> W(1), links |-> W(6), special |-> W(7)]
    [] fmt = "bin-little-endian" ->
       LET W(i) == LE(f, p + 2 * i, 2)
           L(i) == Norm(Sub(f, p + 2 * i + 2, 2) \o Sub(f, p + 2 * i, 2)) IN
       [ok |-> TRUE, ino |-> W(2), mode |-> W(3), uid |-> W(4), gid |-> W(5),
        mtime |-> L(8), psize |-> W(10), fsize |-> L(11), dev |-> W(1), links |-> W(6), special |-> W(7)]
    [] fmt = "odc" ->
       LET R(o, n) == Sub(f, p + o, n) V(o, n) == DigitsNat(R(o, n), 8)
           okay == /\ AllDigits(Sub(f, p + 6, 70), 8)
       IN IF ~okay THEN [ok |-> FALSE]
          ELSE [ok |-> TRUE, ino |-> V(12, 6), mode |-> V(18, 6), uid |-> V(24, 6),
                gid |-> V(30, 6), mtime |-> V(48, 11), psize |-> V(59, 6), fsize |-> V(65, 11),
                dev |-> V(6, 6), links |-> V(36, 6), special |-> V(42, 6)]
    [] OTHER ->
       LET V(i) == DigitsNat(Sub(f, p + 6 + 8 * i, 8), 16)
           okay == AllDigits(Sub(f, p + 6, 104), 16)
       IN IF ~okay THEN [ok |-> FALSE]
          ELSE [ok |-> TRUE, ino |-> V(0), mode |-> V(1), uid |-> V(2), gid |-> V(3),
                mtime |-> V(5), psize |-> V(11), fsize |-> V(6), links |-> V(4),
                major |-> V(7), minor |-> V(8), smajor |-> V(9), sminor |-> V(10), sum |-> V(12)]

(* The report on a file entry.                                             *)
RECURSIVE OctAcc(_, _)
OctAcc(n, acc) == LET dm == DivMod(n, 8) IN IF n = <<>> THEN acc ELSE OctAcc(dm[1], <<48 + dm[2]>> \o acc)
Oct(n) == IF Norm(n) = <<>> THEN <<48>> ELSE OctAcc(Norm(n), <<>>)
Bin(fmt) == fmt \in {"bin-big-endian", "bin-little-endian"}
New(fmt) == fmt \in {"newc", "crc"}
Report(p, fmt, h, raw, po, do, eo) ==
  LET D(label, v) == Ln(label, Dec(v)) IN
  <<At("file entry", p), Ln("Signature", IF Bin(fmt) THEN Hex(IF fmt = "bin-big-endian" THEN BE(F, p, 2) ELSE LE(F, p, 2), 4) ELSE <<98>> \o BytesRepr(Sub(F, p, 6)))>>
  \o (IF New(fmt) THEN <<>> ELSE <<D("Device number", h.dev)>>)
  \o <<D("Inode number", h.ino), Ln("Mode", Oct(h.mode)), D("User identifier (UID)", h.uid), D("Group identifier (GID)", h.gid), D("Number of links", h.links)>>
  \o (IF New(fmt) THEN <<>> ELSE <<D("Special device number", h.special)>>)
  \o <<D("Modification time", h.mtime)>>
  \o (IF New(fmt) THEN <<>> ELSE <<D("Path size", h.psize)>>)
  \o <<D("File size", h.fsize)>>
  \o (IF New(fmt) THEN <<D("Device major number", h.major), D("Device minor number", h.minor), D("Special device major number", h.smajor),
                         D("Special device minor number", h.sminor), D("Path size", h.psize), Ln("Checksum", Hex(h.sum, 8))>> ELSE <<>>)
  \o <<Hexd("Path data", raw), Ln("Path", UpToNul(raw)), Hexd("Path alignment padding", Sub(F, po, do - po))>>
  \o (IF Pad(eo, Align(fmt)) > 0 THEN <<Hexd("File data alignment padding", Sub(F, eo, Pad(eo, Align(fmt))))>> ELSE <<>>)

InitSt == st = [pc |-> "signature", pos |-> 0, fmt |-> "none", ents |-> <<>>, q |-> 1] /\ ev = <<>>

ReadSignature ==
  /\ st.pc = "signature"
  /\ LET fmt == Format(F) IN
     IF fmt = "none"
     THEN st' = [st EXCEPT !.pc = "fail"] /\ ev' = <<>>
     ELSE st' = [st EXCEPT !.pc = "entry", !.fmt = fmt] /\ ev' = <<>>
  /\ UNCHANGED sc

Paths == {st.ents[i].path : i \in 1..Len(st.ents)}

ReadEntry ==
  /\ st.pc = "entry" /\ st.pos < Len(F)
  /\ LET hs == HeaderSize(st.fmt)
         h == Header(F, st.pos, st.fmt)
         raw == Sub(F, st.pos + hs, Sat(h.psize))
         path == UpToNul(raw)
         po == st.pos + hs + Sat(h.psize)
         do == po + Pad(po, Align(st.fmt))
         fs == Sat(h.fsize)
         eo == do + fs
         nx == eo + Pad(eo, Align(st.fmt))
         report == Report(st.pos, st.fmt, h, raw, po, do, eo)
         e == [k |-> "!entry", path |-> path, ino |-> h.ino, mode |-> h.mode,
               uid |-> h.uid, gid |-> h.gid, mtime |-> h.mtime,
               doff |-> Nat2(do), dsize |-> h.fsize, data |-> Sub(F, do, fs)]
     IN
     IF ~Fits(F, st.pos, hs) \/ ~h.ok \/ ~IsAscii(raw)
     THEN st' = [st EXCEPT !.pc = "fail"] /\ ev' = <<>>
     ELSE IF path = TRAILER
     THEN st' = [st EXCEPT !.pc = "list", !.pos = MinOf(nx, BIG)] /\ ev' = report
     ELSE IF path \in Paths
     THEN st' = [st EXCEPT !.pos = MinOf(nx, BIG)] /\ ev' = report
     ELSE st' = [st EXCEPT !.pos = MinOf(nx, BIG), !.ents = Append(@, e)] /\ ev' = report
  /\ UNCHANGED sc

EndOfFile ==
  /\ st.pc = "entry" /\ st.pos >= Len(F)
  /\ st' = [st EXCEPT !.pc = "list"] /\ ev' = <<>>
  /\ UNCHANGED sc

(* The entries, in the order of the archive.                               *)
List ==
  /\ st.pc = "list"
  /\ st' = [st EXCEPT !.pc = "lookup"]
  /\ ev' = <<[k |-> "!format", fmt |-> st.fmt]>> \o st.ents
  /\ UNCHANGED sc

(* The lookups: existence, retrieval by path and by prefix.                *)
Lookup ==
  /\ st.pc = "lookup" /\ st.q <= Len(Probes(sc))
  /\ LET p == Probes(sc)[st.q]
         hits == {i \in 1..Len(st.ents) : st.ents[i].path = p.path}
         found == IF hits = {} THEN <<>> ELSE LET i == CHOOSE i \in hits : TRUE IN <<st.ents[i].ino, st.ents[i].doff>>
         Sel(e) == StartsWith(e.path, p.path)
         pre == SelectSeq(st.ents, Sel)
     IN ev' = CASE p.op = "exists" -> <<[k |-> "!exists", v |-> IF hits = {} THEN 0 ELSE 1]>>
                [] p.op = "get" -> <<[k |-> "!get", v |-> found]>>
                [] OTHER -> <<[k |-> "!prefix", v |-> [i \in 1..Len(pre) |-> pre[i].path]]>>
  /\ st' = [st EXCEPT !.q = @ + 1]
  /\ UNCHANGED sc

Finish ==
  /\ st.pc = "lookup" /\ st.q > Len(Probes(sc))
  /\ st' = [st EXCEPT !.pc = "done"]
  /\ ev' = <<[k |-> "!size", v |-> st.pos]>>
  /\ UNCHANGED sc

Next == ReadSignature \/ ReadEntry \/ EndOfFile \/ List \/ Lookup \/ Finish
Done == st.pc \in {"done", "fail"}
Outcomes == IF st.pc = "done" THEN {"ok"} ELSE {"ParseError"}

-----------------------------------------------------------------------------
(* Design-level properties.                                                *)
TypeOK == st.pc \in {"signature", "entry", "list", "lookup", "done", "fail"} /\ st.pos >= 0
UniquePaths == \A i, j \in 1..Len(st.ents) : st.ents[i].path = st.ents[j].path => i = j
NoTrailer == \A i \in 1..Len(st.ents) : st.ents[i].path # TRAILER
Contained == \A i \in 1..Len(st.ents) :
               LET e == st.ents[i] IN e.data = Sub(F, Sat(e.doff), Sat(e.dsize))
(* every reading action moves strictly forward, so reading terminates      *)
Progress == [][st.pc = "entry" /\ st'.pc = "entry" => st'.pos > st.pos]_vars
OnlyGrows == [][Len(st'.ents) >= Len(st.ents) /\ SubSeq(st'.ents, 1, Len(st.ents)) = st.ents]_vars
=============================================================================
