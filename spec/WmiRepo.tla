------------------------------- MODULE WmiRepo --------------------------------
(* A WMI repository: a directory with mapping files, an index binary tree    *)
(* and a file with objects.  It is opened, asked for its keys, records,      *)
(* instances and namespaces, and closed; R.ops is the history of calls.      *)
(* R.dirs are the directories, R.hashes the hashes of names (of a version).  *)
EXTENDS WmiIndex
CONSTANT Src(_)
VARIABLES sc, st, ev
vars == <<sc, st, ev>>
R == Src(sc)

Common == <<
  "__SystemClass", "ROOT", "ROOT\\Appv", "ROOT\\CIMV2", "ROOT\\CIMV2\\Applications", "ROOT\\CIMV2\\Applications\\MicrosoftIE", "ROOT\\CIMV2\\mdm",
  "ROOT\\CIMV2\\mdm\\dmmap", "ROOT\\CIMV2\\power", "ROOT\\CIMV2\\Security", "ROOT\\CIMV2\\Security\\MicrosoftTpm",
  "ROOT\\CIMV2\\Security\\MicrosoftVolumeEncryption", "ROOT\\CIMV2\\TerminalServices", "ROOT\\Cli", "ROOT\\dcim", "ROOT\\dcim\\sysman",
  "ROOT\\dcim\\sysman\\biosattributes", "ROOT\\dcim\\sysman\\wmisecurity", "ROOT\\DEFAULT", "ROOT\\directory", "ROOT\\directory\\LDAP",
  "ROOT\\Hardware", "ROOT\\Intel_ME", "ROOT\\Interop", "ROOT\\Microsoft", "ROOT\\Microsoft\\HomeNet", "ROOT\\Microsoft\\protectionManagement",
  "ROOT\\Microsoft\\SecurityClient", "ROOT\\Microsoft\\Uev", "ROOT\\Microsoft\\Windows", "ROOT\\Microsoft\\Windows\\AppBackgroundTask",
  "ROOT\\Microsoft\\Windows\\CI", "ROOT\\Microsoft\\Windows\\Defender", "ROOT\\Microsoft\\Windows\\DeliveryOptimization",
  "ROOT\\Microsoft\\Windows\\DesiredStateConfiguration", "ROOT\\Microsoft\\Windows\\DesiredStateConfigurationProxy",
  "ROOT\\Microsoft\\Windows\\DeviceGuard", "ROOT\\Microsoft\\Windows\\dfsn", "ROOT\\Microsoft\\Windows\\DHCP", "ROOT\\Microsoft\\Windows\\Dns",
  "ROOT\\Microsoft\\Windows\\EventTracingManagement", "ROOT\\Microsoft\\Windows\\HardwareManagement", "ROOT\\Microsoft\\Windows\\Hgs",
  "ROOT\\Microsoft\\Windows\\Powershellv3", "ROOT\\Microsoft\\Windows\\PS_MMAgent", "ROOT\\Microsoft\\Windows\\RemoteAccess",
  "ROOT\\Microsoft\\Windows\\RemoteAccess\\Client", "ROOT\\Microsoft\\Windows\\SMB", "ROOT\\Microsoft\\Windows\\SmbWitness",
  "ROOT\\Microsoft\\Windows\\Storage", "ROOT\\Microsoft\\Windows\\Storage\\Providers_v2", "ROOT\\Microsoft\\Windows\\Storage\\PT",
  "ROOT\\Microsoft\\Windows\\Storage\\PT\\Alt", "ROOT\\Microsoft\\Windows\\StorageReplica", "ROOT\\Microsoft\\Windows\\TaskScheduler",
  "ROOT\\Microsoft\\Windows\\Wdac", "ROOT\\Microsoft\\Windows\\WindowsUpdate", "ROOT\\Microsoft\\Windows\\winrm", "ROOT\\MSAPPS10", "ROOT\\msdtc",
  "ROOT\\MSPS", "ROOT\\nap", "ROOT\\NetFrameworkv1", "ROOT\\PEH", "ROOT\\Policy", "ROOT\\RSOP", "ROOT\\RSOP\\Computer", "ROOT\\RSOP\\User",
  "ROOT\\SECURITY", "ROOT\\SecurityCenter", "ROOT\\SecurityCenter2", "ROOT\\ServiceModel", "ROOT\\StandardCimv2", "ROOT\\StandardCimv2\\embedded",
  "ROOT\\subscription", "ROOT\\WMI" >>

(* texts *)
RECURSIVE SplitAt(_, _)
SplitAt(s, c) == LET i == IndexOfVal(s, c) IN IF i = 0 THEN <<s>> ELSE <<SubSeq(s, 1, i - 1)>> \o SplitAt(SubSeq(s, i + 1, Len(s)), c)
After(s, c) == LET i == IndexOfVal(s, c) IN IF i = 0 THEN <<>> ELSE SubSeq(s, i + 1, Len(s))
Before(s, c) == LET i == IndexOfVal(s, c) IN IF i = 0 THEN s ELSE SubSeq(s, 1, i - 1)
UpperC(c) == IF c >= 97 /\ c <= 122 THEN c - 32 ELSE c
Upper(s) == [i \in 1..Len(s) |-> UpperC(s[i])]
(* the hash of a name; names of which no hash was given are not looked up    *)
Hash(v, name) ==
  IF \E i \in 1..Len(R.hashes) : R.hashes[i].n = name
  THEN LET x == R.hashes[CHOOSE i \in 1..Len(R.hashes) : R.hashes[i].n = name] IN IF v = "2.1" THEN x.md5 ELSE x.sha
  ELSE <<0>> \o Upper(name)

(* a decimal number with an optional sign *)
Number10(s) ==
  LET sign == s # <<>> /\ s[1] \in {43, 45}
      t == IF sign THEN Tail(s) ELSE s
      n == Norm(DigitsNat(t, 10))
  IN IF t = <<>> THEN [ok |-> FALSE, neg |-> FALSE, n |-> <<>>]
     ELSE IF ~AllDigits(t, 10) THEN [ok |-> FALSE, neg |-> FALSE, n |-> <<>>]
     ELSE [ok |-> TRUE, neg |-> s[1] = 45 /\ n # <<>>, n |-> n]
(* what the last segment of a key says about an object record                *)
NoRef == [ok |-> FALSE]
Ref(segment) ==
  LET parts == SplitAt(segment, 46)
      p == Number10(parts[2])
      i == Number10(parts[3])
      z == Number10(parts[4])
  IN IF Len(parts) # 4 THEN NoRef
     ELSE IF ~p.ok \/ ~i.ok \/ ~z.ok THEN NoRef
     ELSE [ok |-> TRUE, type |-> Before(parts[1], 95), hash |-> Lower(After(parts[1], 95)), page |-> p, id |-> i, size |-> z]
LastOf(s) == s[Len(s)]

-----------------------------------------------------------------------------
(* the keys of the index: of the root page and of its sub pages, in order    *)
KeysEnd(keys, end) == [keys |-> keys, end |-> end]
RECURSIVE WalkFrom(_, _, _, _)
WalkFrom(o, stack, seen, keys) ==
  LET m == stack[1]
      r == Resolve(o.itable, m)
      p == IndexPage(PageData(o.index[1], Sat(r.n) + 1), Sat(r.n))
  IN IF stack = <<>> THEN KeysEnd(keys, "ok")
     ELSE IF m \in seen THEN KeysEnd(keys, "ParseError")
     ELSE IF ~r.ok THEN KeysEnd(keys, "ParseError")
     ELSE IF ~HasPage(o.index[1], r.n) THEN WalkFrom(o, Tail(stack), seen \cup {m}, keys)
     ELSE IF ~p.ok THEN KeysEnd(keys, "ParseError")
     ELSE WalkFrom(o, p.subs \o Tail(stack), seen \cup {m}, keys \o p.keys)
Walk(o) ==
  LET first == Resolve(o.itable, <<>>)
      fp == IndexPage(PageData(o.index[1], Sat(first.n) + 1), Sat(first.n))
      root == Resolve(o.itable, IF o.v = "2.1" THEN fp.root ELSE <<1>>)
      rp == IndexPage(PageData(o.index[1], Sat(root.n) + 1), Sat(root.n))
      FirstIs == IF o.v # "2.1" THEN "ok" ELSE IF ~first.ok THEN "ParseError" ELSE IF ~HasPage(o.index[1], first.n) THEN "RuntimeError"
                 ELSE IF ~fp.ok THEN "ParseError" ELSE IF fp.type # Admin THEN "RuntimeError" ELSE "ok"
  IN IF FirstIs # "ok" THEN KeysEnd(<<>>, FirstIs)
     ELSE IF ~root.ok THEN KeysEnd(<<>>, "ParseError")
     ELSE IF ~HasPage(o.index[1], root.n) THEN KeysEnd(<<>>, "ok")
     ELSE IF ~rp.ok THEN KeysEnd(<<>>, "ParseError")
     ELSE WalkFrom(o, rp.subs, {}, rp.keys)

(* the data of an object record: described in its first page, it goes on at  *)
(* the start of the next mapped pages                                        *)
RECURSIVE DescriptorsOf(_, _, _)
DescriptorsOf(d, p, r) ==
  IF ~Fits(d, p, 16) THEN [ok |-> FALSE, r |-> r]
  ELSE IF AllZero(Sub(d, p, 16)) THEN [ok |-> TRUE, r |-> r]
  ELSE DescriptorsOf(d, p + 16, Append(r, [id |-> LE(d, p, 4), offset |-> LEi(d, p + 4, 4), size |-> LE(d, p + 8, 4)]))
Got(res, d) == [res |-> res, d |-> d]
RECURSIVE RestOf(_, _, _, _, _)
RestOf(o, m, offset, size, acc) ==
  LET r == Resolve(o.otable, m)
      d == PageData(o.objects[1], Sat(r.n) + 1)
      n == MinOf(size, PAGE - offset)
  IN IF size = 0 THEN Got("ok", acc)
     ELSE IF ~r.ok THEN Got("ParseError", <<>>)
     ELSE IF ~HasPage(o.objects[1], r.n) THEN Got("ParseError", <<>>)
     ELSE IF ~Fits(d, offset, n) THEN Got("ParseError", <<>>)
     ELSE RestOf(o, AddN(m, <<1>>), 0, size - n, acc \o Sub(d, offset, n))
Record(o, ref) ==
  LET r == Resolve(o.otable, ref.page.n)
      ds == DescriptorsOf(PageData(o.objects[1], Sat(r.n) + 1), 0, <<>>)
      is == {i \in 1..Len(ds.r) : ~ref.id.neg /\ ds.r[i].id = ref.id.n}
      x == ds.r[CHOOSE i \in is : \A j \in is : i <= j]
  IN IF o.objects = <<>> THEN Got("RuntimeError", <<>>)
     ELSE IF ref.size.neg \/ ref.size.n = <<>> THEN Got("ok", <<>>)
     ELSE IF ref.page.neg \/ ~r.ok THEN Got("ParseError", <<>>)
     ELSE IF ~HasPage(o.objects[1], r.n) THEN Got("ParseError", <<>>)
     ELSE IF ~ds.ok \/ is = {} THEN Got("ParseError", <<>>)
     ELSE IF x.size # ref.size.n \/ x.offset >= PAGE THEN Got("ParseError", <<>>)
     ELSE RestOf(o, ref.page.n, x.offset, Sat(ref.size.n), <<>>)

(* the class definitions, by hash of their name; the last of a hash counts   *)
PutH(r, h, c) == IF \E i \in 1..Len(r) : r[i].h = h THEN [i \in 1..Len(r) |-> IF r[i].h = h THEN [h |-> h, c |-> c] ELSE r[i]] ELSE Append(r, [h |-> h, c |-> c])
RECURSIVE DefsFrom(_, _, _, _)
DefsFrom(o, keys, end, defs) ==
  LET ref == Ref(LastOf(SplitAt(keys[1], 92)))
      d == Record(o, ref)
      r == ClassRecord(d.d)
      c == Class(r.d, r.at)
  IN IF keys = <<>> THEN [res |-> end, defs |-> defs]
     ELSE IF ~ref.ok THEN DefsFrom(o, Tail(keys), end, defs)
     ELSE IF ref.type # Lit("CD") THEN DefsFrom(o, Tail(keys), end, defs)
     ELSE IF d.res # "ok" THEN [res |-> d.res, defs |-> defs]
     ELSE IF ~r.ok THEN [res |-> "ParseError", defs |-> defs]
     ELSE IF ~c.ok THEN [res |-> "ParseError", defs |-> defs]
     ELSE DefsFrom(o, Tail(keys), end, PutH(defs, ref.hash, c.c))

(* the layout of a class: its definition and those of its super classes      *)
RECURSIVE ChainOf(_, _, _)
ChainOf(o, h, seen) ==
  LET is == {i \in 1..Len(o.defs) : o.defs[i].h = h}
      i == CHOOSE j \in is : TRUE
      c == o.defs[i].c
  IN IF is = {} THEN [res |-> "RuntimeError", cs |-> <<>>]
     ELSE IF i \in seen THEN [res |-> "ParseError", cs |-> <<>>]
     ELSE IF c.super.t = "none" \/ c.super.v = <<>> THEN [res |-> "ok", cs |-> <<c>>]
     ELSE LET up == ChainOf(o, Hash(o.v, c.super.v), seen \cup {i}) IN [up EXCEPT !.cs = Append(@, c)]
NoInst(res) == [res |-> res]
InstanceOf(o, d) ==
  LET r == InstanceRecord(d, o.v = "2.1")
      chain == ChainOf(o, Lower(r.hash), {})
      l == Layout(chain.cs)
      i == Instance(r.d, l)
  IN IF ~r.ok THEN NoInst("ParseError")
     ELSE IF chain.res # "ok" THEN NoInst(chain.res)
     ELSE IF ~l.ok THEN NoInst("ParseError")
     ELSE IF ~i.ok THEN NoInst("ParseError")
     ELSE [res |-> "ok", i |-> [name |-> l.name, derivation |-> l.derivation, dynasty |-> l.dynasty, super |-> l.super, ps |-> i.ps, ns |-> <<>>]]
IsInstance(ref) == ref.ok /\ (ref.type = Lit("I") \/ ref.type = Lit("IL"))
RECURSIVE InstancesFrom(_, _, _, _)
InstancesFrom(o, keys, end, is) ==
  LET ref == Ref(LastOf(SplitAt(keys[1], 92)))
      d == Record(o, ref)
      i == InstanceOf(o, d.d)
  IN IF keys = <<>> THEN [res |-> end, is |-> is]
     ELSE IF ~IsInstance(ref) THEN InstancesFrom(o, Tail(keys), end, is)
     ELSE IF d.res # "ok" THEN [res |-> d.res, is |-> is]
     ELSE IF i.res # "ok" THEN [res |-> i.res, is |-> is]
     ELSE InstancesFrom(o, Tail(keys), end, Append(is, i.i))

(* the namespaces: instances of the class __NAMESPACE of a parent namespace  *)
Parent(r, h) == IF \E i \in 1..Len(r) : r[i].h = h THEN r ELSE Append(r, [h |-> h, is |-> <<>>])
With(r, h, i) == [k \in 1..Len(r) |-> IF r[k].h = h THEN [r[k] EXCEPT !.is = Append(@, i)] ELSE r[k]]
RECURSIVE ParentsFrom(_, _, _, _, _)
ParentsFrom(o, keys, end, seen, ps) ==
  LET segments == SplitAt(keys[1], 92)
      h == Lower(SubSeq(segments[2], 4, Len(segments[2])))
      with == Parent(ps, h)
      ref == Ref(LastOf(segments))
      d == Record(o, ref)
      i == InstanceOf(o, d.d)
      id == <<ref.page, ref.id>>
  IN IF keys = <<>> THEN [res |-> end, ps |-> ps]
     ELSE IF ~StartsWith(segments[2], Lit("NS_")) THEN ParentsFrom(o, Tail(keys), end, seen, ps)
     ELSE IF Len(segments) < 3 THEN ParentsFrom(o, Tail(keys), end, seen, with)
     ELSE IF Lower(After(segments[3], 95)) # Hash(o.v, Lit("__NAMESPACE")) THEN ParentsFrom(o, Tail(keys), end, seen, with)
     ELSE IF ~IsInstance(ref) THEN ParentsFrom(o, Tail(keys), end, seen, with)
     ELSE IF id \in seen THEN ParentsFrom(o, Tail(keys), end, seen, with)
     ELSE IF d.res # "ok" THEN [res |-> d.res, ps |-> ps]
     ELSE IF i.res # "ok" THEN [res |-> i.res, ps |-> ps]
     ELSE ParentsFrom(o, Tail(keys), end, seen \cup {id}, With(with, h, i.i))
(* names by hash: those that were found and those that are common            *)
FoundAt(names, h) == {i \in 1..Len(names) : names[i].h = h}
CommonText == [i \in 1..Len(Common) |-> Lit(Common[i])]
CommonAt(o, h) == {i \in 1..Len(Common) : Hash(o.v, CommonText[i]) = h}
Knows(o, names, h) == FoundAt(names, h) # {} \/ CommonAt(o, h) # {}
NameOf(o, names, h) == IF FoundAt(names, h) # {} THEN names[CHOOSE i \in FoundAt(names, h) : TRUE].n ELSE CommonText[CHOOSE i \in CommonAt(o, h) : TRUE]
PutN(names, h, n) == IF FoundAt(names, h) # {} THEN [i \in 1..Len(names) |-> IF names[i].h = h THEN [h |-> h, n |-> n] ELSE names[i]] ELSE Append(names, [h |-> h, n |-> n])
RECURSIVE Name1(_, _, _, _, _)
(* the instances of one parent *)
Name1(o, parent, is, names, out) ==
  LET v == Get(is[1].ps, Lit("Name"))
      n == parent \o <<92>> \o v.v
  IN IF is = <<>> THEN [ok |-> TRUE, names |-> names, out |-> out]
     ELSE IF v.t # "str" THEN [ok |-> FALSE, names |-> names, out |-> out]
     ELSE Name1(o, parent, Tail(is), PutN(names, Hash(o.v, n), n), Append(out, [is[1] EXCEPT !.ns = n]))
RECURSIVE NamePass(_, _, _, _, _)
NamePass(o, ps, names, out, left) ==
  LET r == Name1(o, NameOf(o, names, ps[1].h), ps[1].is, names, out)
  IN IF ps = <<>> THEN [ok |-> TRUE, names |-> names, out |-> out, left |-> left]
     ELSE IF ~Knows(o, names, ps[1].h) THEN NamePass(o, Tail(ps), names, out, Append(left, ps[1]))
     ELSE IF ~r.ok THEN [ok |-> FALSE, names |-> names, out |-> out, left |-> left]
     ELSE NamePass(o, Tail(ps), r.names, r.out, left)
(* a name that is new is one that is not common                              *)
NewNames(o, names) == Cardinality({i \in 1..Len(names) : CommonAt(o, names[i].h) = {}})
RECURSIVE NameAll(_, _, _, _)
NameAll(o, ps, names, out) ==
  LET r == NamePass(o, ps, names, out, <<>>)
  IN IF ~r.ok THEN [res |-> "ParseError", out |-> <<>>]
     ELSE IF NewNames(o, r.names) = NewNames(o, names) THEN [res |-> "ok", out |-> r.out]
     ELSE NameAll(o, r.left, r.names, r.out)
Namespaces(o) ==
  LET w == Walk(o)
      p == ParentsFrom(o, w.keys, w.end, {}, <<>>)
  IN IF p.res # "ok" THEN [res |-> p.res, out |-> <<>>] ELSE NameAll(o, p.ps, <<>>, <<>>)

-----------------------------------------------------------------------------
(* opening a directory: the mapping that is active is the first of those     *)
(* with the highest sequence number, unless there is a mapping of the file   *)
Active3(dir) ==
  LET ms == [i \in 1..3 |-> IF dir.m[i] = <<>> THEN NoMap ELSE Map(dir.m[i][1])]
      there == {i \in 1..3 : dir.m[i] # <<>>}
      best == {i \in there : \A j \in there : LtN(ms[j].seq, ms[i].seq) \/ (ms[j].seq = ms[i].seq /\ i <= j)}
  IN IF dir.ver # <<>> /\ Len(dir.ver[1]) < 4 THEN NoMap
     ELSE IF \E i \in there : ~ms[i].ok THEN NoMap
     ELSE IF there = {} THEN NoMap
     ELSE ms[CHOOSE i \in best : TRUE]
MapOf(dir, own) == IF own # <<>> THEN Map(own[1]) ELSE Active3(dir)
Closed(v) == [open |-> FALSE, v |-> v, itable |-> <<>>, otable |-> <<>>, index |-> <<>>, objects |-> <<>>, defs |-> <<>>, ns |-> <<>>]
FileOf(dir, as) == CASE as = "index.map" -> dir.im [] as = "objects.map" -> dir.om [] as = "mapping1.map" -> dir.m[1] [] as = "mapping2.map" -> dir.m[2] [] OTHER -> dir.m[3]
BadIndex(f) == \E i \in 1..PageCount(f) : ~IndexPage(PageData(f, i), i - 1).ok
OpenDir(dir, as, v0) ==
  LET im == MapOf(dir, dir.im)
      v == IF im.v = 1 THEN "2.1" ELSE "2.2"
      om == MapOf(dir, dir.om)
      o1 == [Closed(v) EXCEPT !.open = TRUE, !.itable = im.index, !.index = dir.index]
      o2 == [o1 EXCEPT !.otable = om.objects, !.objects = dir.objects]
      w == Walk(o2)
      d == DefsFrom(o2, w.keys, w.end, <<>>)
      Out(res, o) == [res |-> res, o |-> o]
  IN IF as \notin {"dir", "index.btr"}
     THEN IF FileOf(dir, as) = <<>> THEN Out("ok", [Closed(v0) EXCEPT !.open = TRUE])
          ELSE IF Map(FileOf(dir, as)[1]).ok THEN Out("ok", [Closed(v0) EXCEPT !.open = TRUE]) ELSE Out("ParseError", Closed(v0))
     ELSE IF ~im.ok THEN Out("ParseError", Closed(v0))
     ELSE IF dir.index # <<>> /\ R.debug /\ BadIndex(dir.index[1]) THEN Out("ParseError", Closed(v))
     ELSE IF as = "index.btr" THEN Out("ok", o1)
     ELSE IF dir.index = <<>> THEN Out("ParseError", Closed(v))
     ELSE IF ~om.ok THEN Out("ParseError", o1)
     ELSE Out(d.res, [o2 EXCEPT !.defs = d.defs])

Files(o) == Len(o.index) + Len(o.objects)
InitSt == st = [pc |-> "run", i |-> 1, o |-> Closed("None"), failed |-> FALSE, keys |-> <<>>] /\ ev = <<>>
End(op, res, o) == <<[k |-> "!end", v |-> [op |-> op, res |-> res, version |-> o.v, files |-> Files(o)]]>>
Op == R.ops[st.i]
More == st.pc = "run" /\ st.i <= Len(R.ops)
Skips == st.failed /\ Op.op # "close"
Does(op) == More /\ ~Skips /\ Op.op = op
Then(o, failed, keys) == st' = [st EXCEPT !.i = @ + 1, !.o = o, !.failed = failed, !.keys = keys]

Open ==
  /\ Does("open")
  /\ LET r == OpenDir(R.dirs[Op.dir], Op.as, st.o.v)
     IN Then(r.o, r.res # "ok", <<>>) /\ ev' = End("open", r.res, r.o)
  /\ UNCHANGED sc
Keys ==
  /\ Does("keys")
  /\ LET w == IF st.o.index = <<>> THEN KeysEnd(<<>>, "ok") ELSE Walk(st.o)
     IN Then(st.o, FALSE, w.keys) /\ ev' = [i \in 1..Len(w.keys) |-> [k |-> "!key", v |-> w.keys[i]]] \o End("keys", w.end, st.o)
  /\ UNCHANGED sc
GetRecord ==
  /\ Does("record")
  /\ LET ref == Ref(LastOf(SplitAt(Op.key, 92)))
         d == Record(st.o, ref)
     IN /\ Then(st.o, FALSE, st.keys)
        /\ ev' = IF ~ref.ok THEN End("no record", "ok", st.o)
                 ELSE (IF d.res = "ok" THEN <<[k |-> "!record", v |-> [type |-> ref.type, d |-> d.d]]>> ELSE <<>>) \o End("record", d.res, st.o)
  /\ UNCHANGED sc
Instances ==
  /\ Does("instances")
  /\ LET w == Walk(st.o)
         r == InstancesFrom(st.o, w.keys, w.end, <<>>)
     IN Then(st.o, FALSE, st.keys) /\ ev' = [i \in 1..Len(r.is) |-> [k |-> "!instance", v |-> r.is[i]]] \o End("instances", r.res, st.o)
  /\ UNCHANGED sc
GetNamespaces ==
  /\ Does("namespaces")
  /\ LET r == IF st.o.ns # <<>> THEN [res |-> "ok", out |-> st.o.ns] ELSE Namespaces(st.o)
         o == [st.o EXCEPT !.ns = r.out]
     IN Then(o, FALSE, st.keys) /\ ev' = [i \in 1..Len(r.out) |-> [k |-> "!instance", v |-> r.out[i]]] \o End("namespaces", r.res, o)
  /\ UNCHANGED sc
Close == Does("close") /\ Then(Closed(st.o.v), FALSE, st.keys) /\ ev' = End("close", "ok", Closed(st.o.v)) /\ UNCHANGED sc
Skip == More /\ Skips /\ st' = [st EXCEPT !.i = @ + 1] /\ ev' = <<>> /\ UNCHANGED sc
Finish == st.pc = "run" /\ st.i > Len(R.ops) /\ st' = [st EXCEPT !.pc = "done"] /\ ev' = <<>> /\ UNCHANGED sc
Next == Open \/ Keys \/ GetRecord \/ Instances \/ GetNamespaces \/ Close \/ Skip \/ Finish
Done == st.pc = "done"
Outcomes == {"ok"}
-----------------------------------------------------------------------------
(* nothing of a repository is left when it was closed                        *)
ClosedIsEmpty == ~st.o.open => st.o.defs = <<>> /\ st.o.ns = <<>>
NoFiles == (st.pc = "done" /\ R.ops[Len(R.ops)].op = "close") => Files(st.o) = 0
(* every namespace has a name below that of its parent                       *)
Below == \A i \in 1..Len(st.o.ns) : IndexOfVal(st.o.ns[i].ns, 92) # 0
=============================================================================
