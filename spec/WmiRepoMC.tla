------------------------------- MODULE WmiRepoMC ------------------------------
(* Small repositories, written by the model: a class __NAMESPACE with one    *)
(* property and two namespaces, in every arrangement that matters.           *)
EXTENDS WmiRepo, Json
CONSTANTS Versions, Maps, Recs, Classes, Trees, Names, Depth
MCSrc(x) == x.src
Table1 == <<
  [n |-> Lit("__NAMESPACE"), md5 |-> Lit("e5844d1645b0b6e6f2af610eb14bfc34"), sha |-> Lit("64659ab9f8f1c4b568db6438bae11b26ee8f93cb5f8195e21e8c383d6c44cc41")],
  [n |-> Lit("S"), md5 |-> Lit("6f0ac8c187cedb835a9ba373603bda3f"), sha |-> Lit("308b561495666ebb99e79cf47c5da05846f05bb02c5daa39738663f8daa12687")],
  [n |-> Lit("ROOT"), md5 |-> Lit("c82638bebd36e6f8e4573c4f475c62bf"), sha |-> Lit("e8c4f9926e52e9240c37c4e59745ceb61a67a77c9f6692ea4295a97e0af583c5")],
  [n |-> Lit("ROOT\\A"), md5 |-> Lit("b4d8a0fbaa3f8a00b8b0c4073b1c9e7a"), sha |-> Lit("1ad39b2309f3a5f4a320c737e42016a4007b28e15e33e89dd8f9511c28dbb106")],
  [n |-> Lit("ROOT\\A\\B"), md5 |-> Lit("ddffe1fe13906b9368c7d17ffd6f97e9"), sha |-> Lit("fa8234963375a44cd1da60ec02e51502d5f00ea7ac7720c3f50e527e5ef920f4")],
  [n |-> Lit("ROOT\\B"), md5 |-> Lit("6719399ea1fa2451bb04944d6f605542"), sha |-> Lit("9c91b3f9a385a89edd59fcc0f4b442727cda88d4fa30ea8c4374729b75e78014")],
  [n |-> Lit("ROOT\\WMI"), md5 |-> Lit("8dfcca0b7fab09c32755407485035a60"), sha |-> Lit("3fbdcb08ecd33fbef028d2db3ef058f8ce959779b943f43ab3db3ec34aca147d")],
  [n |-> Lit("ROOT\\wmi"), md5 |-> Lit("8dfcca0b7fab09c32755407485035a60"), sha |-> Lit("3fbdcb08ecd33fbef028d2db3ef058f8ce959779b943f43ab3db3ec34aca147d")] >>
U2(n) == EncLE(n, 2)
U4(n) == EncLE(n, 4)
Wide(s) == FlatSeq([i \in 1..Len(s) |-> <<s[i], 0>>])
H(v2, name) == LET x == Table1[CHOOSE i \in 1..Len(Table1) : Table1[i].n = Lit(name)] IN IF v2 THEN x.sha ELSE x.md5
(* a class, with or without the property Name; values: the name of the class, *)
(* of the property, of its type and the definition of the property            *)
ClassRec(name, sup, with) ==
  LET cn == <<0>> \o Lit(name) \o <<0>>
      d0 == cn \o <<0>> \o Lit("Name") \o <<0, 0>> \o Lit("string") \o <<0>>
      def == U4(8) \o U2(0) \o U4(0) \o U4(0) \o U4(17) \o <<10, 0, 0, 128, 0, 8, 0, 0, 0>> \o U4(Len(cn) + 6)
      d == IF with THEN d0 \o def ELSE cn
      sb == IF sup = "" THEN <<>> ELSE <<0>> \o Lit(sup) \o <<0>>
      c == <<0>> \o U4(0) \o U4(0) \o U4(4 + Len(sb)) \o sb \o U4(4) \o U4(IF with THEN 1 ELSE 0)
           \o (IF with THEN U4(Len(cn)) \o U4(Len(d0)) ELSE <<>>) \o SubSeq(U4(Len(d)), 1, 3) \o <<128>> \o d
  IN U4(Len(Lit(sup))) \o Wide(Lit(sup)) \o U4(1) \o U4(0) \o U4(4 + Len(c)) \o c
InstanceRec(v2, name) ==
  LET d == <<0, 88, 0, 0>> \o Lit(name) \o <<0>>
      b == U4(0) \o <<1, 0>> \o U4(IF name = "" THEN 0 ELSE 3) \o U4(4) \o <<1>> \o U4(0) \o d
  IN Wide(H(v2, "__NAMESPACE")) \o U4(0) \o U4(1) \o U4(2) \o U4(3) \o U4(4 + Len(b)) \o b
(* an objects page: descriptors of records (with an id) that are put one     *)
(* after the other from an offset on; what does not fit is on the next page  *)
Fill(d, n) == d \o Zeros(n - Len(d))
Descr(id, offset, size) == U4(id) \o U4(offset) \o U4(size) \o U4(9)
RECURSIVE Offsets(_, _)
Offsets(rs, at) == IF rs = <<>> THEN <<>> ELSE <<at>> \o Offsets(Tail(rs), at + Len(rs[1]))
ObjectsPage(rs, at) ==
  LET os == Offsets(rs, at)
      ds == FlatSeq([i \in 1..Len(rs) |-> Descr(i + 10, os[i], Len(rs[i]))])
  IN Fill(ds \o Zeros(16), at) \o FlatSeq(rs)
MapFile1(v2, seq, table) ==
  LET n == Len(table)
  IN <<205, 171, 0, 0>> \o U4(seq) \o (IF v2 THEN U4(2) \o U4(1) ELSE <<>>) \o U4(n + 7) \o U4(n)
             \o FlatSeq([i \in 1..n |-> U4(table[i]) \o (IF v2 THEN Zeros(20) ELSE <<>>)]) \o U4(0) \o <<186, 220, 0, 0>>
MapFile(v2, seq, table) == IF v2 THEN MapFile1(v2, seq, table) \o MapFile1(v2, seq, table) ELSE MapFile1(v2, seq, table)
IndexPageOf(type, keys, subs, root) ==
  LET n == Len(keys)
      vs == FlatSeq(keys)
      first(i) == Len(FlatSeq(SubSeq(keys, 1, i - 1)))
      kd == FlatSeq([i \in 1..n |-> U2(Len(keys[i])) \o FlatSeq([j \in 1..Len(keys[i]) |-> U2(first(i) + j - 1)])])
      ko == [i \in 1..n |-> first(i) + i - 1]
      vo == Offsets([i \in 1..Len(vs) |-> vs[i] \o <<0>>], 0)
      vd == FlatSeq([i \in 1..Len(vs) |-> vs[i] \o <<0>>])
  IN <<type, 172 + (type - 204) \div 17, 0, 0>> \o U4(0) \o U4(0) \o U4(root) \o U4(n) \o FlatSeq([i \in 1..n |-> U4(0)])
     \o FlatSeq([i \in 1..(n + 1) |-> U4(IF i <= Len(subs) THEN subs[i] ELSE 0)]) \o FlatSeq([i \in 1..n |-> U2(ko[i])])
     \o U2(Len(kd) \div 2) \o kd \o U2(Len(vs)) \o FlatSeq([i \in 1..Len(vs) |-> U2(vo[i])]) \o U2(Len(vd)) \o vd

Scen == [v2 : Versions, map : Maps, rec : Recs, cls : Classes, tree : Trees, name : Names]
Plain(s) == (IF s.map = "both" THEN 0 ELSE 1) + (IF s.rec = "plain" THEN 0 ELSE 1) + (IF s.cls = "own" THEN 0 ELSE 1) + (IF s.tree = "flat" THEN 0 ELSE 1) + (IF s.name = "new" THEN 0 ELSE 1)
Part(head, hash, tail) == Lit(head) \o hash \o Lit(tail)
MkSrc(s) ==
  LET v2 == s.v2
      ns == H(v2, "__NAMESPACE")
      first == CASE s.name = "none" -> "" [] s.name = "known" -> "wmi" [] OTHER -> "A"
      child == CASE s.name = "known" -> "ROOT\\WMI" [] s.name = "orphan" -> "ROOT\\B" [] OTHER -> "ROOT\\A"
      c1 == ClassRec("__NAMESPACE", CASE s.cls \in {"super", "loop", "nosuper"} -> "S" [] OTHER -> "", TRUE)
      c2 == ClassRec("S", IF s.cls = "loop" THEN "__NAMESPACE" ELSE "", FALSE)
      i1 == InstanceRec(v2, first)
      i2 == InstanceRec(v2, "B")
      rs == <<c1, c2, i1, i2>>
      at == IF s.rec = "span" THEN PAGE - Len(c1) - Len(c2) - Len(i1) - 30 ELSE 100
      data == ObjectsPage(rs, at)
      size == IF s.rec = "cut" THEN Len(data) - 1 ELSE PAGE * 3
      objects == [pages |-> (IF s.rec = "cut" THEN <<SubSeq(data, 1, size)>> ELSE IF Len(data) > PAGE THEN <<Norm(SubSeq(data, PAGE + 1, Len(data))), <<>>, SubSeq(data, 1, PAGE)>> ELSE <<<<>>, <<>>, Norm(data)>>), size |-> size]
      otable == IF s.rec = "cut" THEN <<9, 0, 0>> ELSE IF s.rec = "gone" THEN <<0, 7, 1>> ELSE <<1, 2, 0>>
      Tl(i) == CASE i = 3 /\ s.rec = "id" -> ".1.99." \o ToString(Len(rs[i])) [] i = 3 /\ s.rec = "size" -> ".1.13." \o ToString(Len(rs[i]) + 1)
                 [] i = 3 /\ s.rec = "neg" -> ".-1.13." \o ToString(Len(rs[i])) [] i = 3 /\ s.rec = "zero" -> ".1.13.0" [] i = 3 /\ s.rec = "text" -> ".1.x.2"
                 [] OTHER -> ".1." \o ToString(10 + i) \o "." \o ToString(Len(rs[i]))
      root == Part("NS_", H(v2, "ROOT"), "")
      k1 == <<root, Part("CD_", ns, Tl(1))>>
      k2 == <<root, Part("CD_", H(v2, "S"), Tl(2))>>
      k3 == <<root, Part("CI_", ns, ""), Part("IL_", ns, Tl(3))>>
      k4 == <<Part("NS_", H(v2, child), ""), Part("CI_", ns, ""), Part("IL_", ns, Tl(4))>>
      keys == (IF s.cls = "none" THEN <<>> ELSE <<k1>>) \o (IF s.cls \in {"super", "loop"} THEN <<k2>> ELSE <<>>) \o (IF s.name = "first" THEN <<k4, k3>> ELSE <<k3, k4>>)
      n == Len(keys)
      \* mapped: 0 the administrative page, 1 the root, 2 and 3 sub pages
      adm == IndexPageOf(IF s.tree = "noadmin" THEN 204 ELSE 221, <<>>, <<>>, 1)
      r == CASE s.tree = "flat" -> IndexPageOf(204, keys, <<>>, 0)
             [] s.tree = "deep" -> IndexPageOf(204, SubSeq(keys, 1, 1), <<2>>, 0)
             [] OTHER -> IndexPageOf(204, SubSeq(keys, 1, 1), <<2, 3>>, 0)
      s2 == CASE s.tree = "deep" -> IndexPageOf(204, SubSeq(keys, 2, 2), <<3>>, 0)
              [] s.tree = "again" -> IndexPageOf(204, SubSeq(keys, 2, 2), <<3>>, 0)
              [] OTHER -> IndexPageOf(204, SubSeq(keys, 2, 2), <<>>, 0)
      s3 == IndexPageOf(204, SubSeq(keys, 3, n), <<>>, 0)
      itable == <<3, 0, IF s.tree = "beyond" THEN 12 ELSE 2, 1>>
      index == [pages |-> <<Norm(r), Norm(s3), Norm(s2), Norm(adm)>>, size |-> 4 * PAGE]
      im == MapFile(v2, 5, itable)
      om == MapFile(v2, 5, otable)
      files == [im |-> IF s.map = "active" THEN <<>> ELSE <<im>>, om |-> IF s.map \in {"both", "noindex", "nodata"} THEN <<om>> ELSE <<>>,
                m |-> CASE s.map \in {"both", "none", "noindex", "nodata"} -> <<<<>>, <<>>, <<>>>>
                        [] s.map = "active" -> <<<<>>, <<MapFile1(v2, 7, otable) \o MapFile1(v2, 7, itable)>>, <<>>>>
                        [] s.map = "later" -> <<<<MapFile(v2, 5, <<>>)>>, <<MapFile(v2, 6, otable)>>, <<MapFile(v2, 5, <<>>)>>>>
                        [] s.map = "equal" -> <<<<>>, <<MapFile(v2, 6, otable)>>, <<MapFile(v2, 6, <<>>)>>>>
                        [] OTHER -> <<<<om>>, <<>>, <<SubSeq(om, 1, Len(om) - 1)>>>>,
                ver |-> IF s.map = "later" THEN <<U4(2)>> ELSE <<>>, index |-> IF s.map = "noindex" THEN <<>> ELSE <<index>>, objects |-> IF s.map = "nodata" THEN <<>> ELSE <<objects>>]
      O(op) == [op |-> op, dir |-> 1, as |-> "dir", key |-> <<>>]
      key3 == <<92>> \o k3[1] \o <<92>> \o k3[3]
  IN [dirs |-> <<files>>, hashes |-> Table1, debug |-> FALSE,
      ops |-> <<O("open"), O("keys"), O("instances"), O("namespaces"), [O("record") EXCEPT !.key = key3], O("namespaces"), O("close"),
                [O("open") EXCEPT !.as = "index.btr"], O("keys"), [O("record") EXCEPT !.key = key3], O("close"), [O("open") EXCEPT !.as = "mapping3.map"], O("close")>>]
MCInit == (\E s \in {x \in Scen : Plain(x) <= Depth} : sc = [s |-> s, src |-> MkSrc(s)]) /\ InitSt
MCSpec == MCInit /\ [][Next]_vars /\ WF_vars(Next)
Terminates == <>Done
Good(s) == s.map \in {"both", "active", "later", "equal"} /\ s.rec \in {"plain", "span"} /\ s.cls \in {"own", "super"} /\ s.tree \in {"flat", "deep", "wide"}
Ended(op) == st.i > 1 /\ Len(ev) > 0 /\ ev[Len(ev)].k = "!end" /\ ev[Len(ev)].v.op = op
(* wherever keys, pages and records are, the same is found                   *)
AllKeys == (Good(sc.s) /\ Ended("keys") /\ st.i < 8) => Len(ev) = 1 + (IF sc.s.cls = "super" THEN 4 ELSE 3)
AllInstances == (Good(sc.s) /\ Ended("instances")) => Len(ev) = 3 /\ ev[3].v.res = "ok"
AllNames == (Good(sc.s) /\ Ended("namespaces") /\ sc.s.name \in {"new", "first", "known"}) =>
               Len(ev) = 3 /\ {ev[1].v.ns, ev[2].v.ns} = (IF sc.s.name = "known" THEN {Lit("ROOT\\wmi"), Lit("ROOT\\wmi\\B")} ELSE {Lit("ROOT\\A"), Lit("ROOT\\A\\B")})
Orphans == (Good(sc.s) /\ Ended("namespaces") /\ sc.s.name = "orphan") => Len(ev) = 2
Nameless == (Good(sc.s) /\ Ended("namespaces") /\ sc.s.name = "none") => ev[1].v.res = "ParseError"
Supers == (Good(sc.s) /\ Ended("instances") /\ sc.s.cls = "super") => ev[1].v.super = Str(Lit("S"))
Loops == (Ended("instances") /\ sc.s.cls = "loop" /\ sc.s.rec = "plain") => ev[Len(ev)].v.res = "ParseError"
MCDump == Done => PrintT("SCEN " \o ToJson([src |-> sc.src]))
=============================================================================
