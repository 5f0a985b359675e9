-------------------------------- MODULE WmiRep --------------------------------
(* The repository file (CIM.REP) of a WMI repository of format version 2.0.  *)
(* It has node cells in node bins; the nodes refer to each other by offset.  *)
(* Two of the cells are found by their number when the file is opened: the   *)
(* root namespace and the class __SystemClass.  Namespaces, instances and    *)
(* class definitions are then read by walking the nodes from there: st.stack *)
(* has what is still to be read, in order.  R.files are the files, R.ops the *)
(* history of calls.                                                         *)
EXTENDS WmiClass
CONSTANT Src(_)
VARIABLES sc, st, ev
vars == <<sc, st, ev>>
R == Src(sc)
File == R.files[st.f]

-----------------------------------------------------------------------------
(* nodes                                                                     *)
None == [ok |-> FALSE, size |-> 0, d |-> <<>>]
(* the flags of the size of a cell are not part of its size                  *)
CellAt(f, o) ==
  LET size == LEi(f, o, 3) + 16777216 * (Sub(f, o + 3, 1)[1] % 8)
  IN IF o < 0 \/ ~Fits(f, o, 4) THEN None
     ELSE IF size = 0 THEN [ok |-> TRUE, size |-> 0, d |-> <<>>]
     ELSE IF size < 4 \/ ~Fits(f, o + 4, size - 4) THEN None
     ELSE [ok |-> TRUE, size |-> size, d |-> Sub(f, o + 4, size - 4)]
(* the data of a node of at least n bytes; offsets refer to the data of cells *)
NodeAt(f, o, n) == LET c == CellAt(f, o - 4) IN [ok |-> c.ok /\ Len(c.d) >= n, d |-> c.d]
P(d, o) == LEi(d, o, 4)
IsSet(o) == o > 40
(* a block of data with its size before it, from p                           *)
BlockOk(d, p) == Fits(d, p, 4) /\ P(d, p) >= 4 /\ Fits(d, p, P(d, p))
Block(d, p) == Sub(d, p + 4, P(d, p) - 4)
FOOTER == 12
NameOk(f, o) ==
  LET n == NodeAt(f, o, 1)
      z == Utf16Nul(n.d)
  IN n.ok /\ z >= 0 /\ Utf16(Sub(n.d, 0, z))[1] /\ Len(n.d) >= z + 2 + Pad(z + 2, 4) + FOOTER
UnknownOk(f, o) == LET n == NodeAt(f, o, 1) IN n.ok /\ BlockOk(n.d, 0) /\ Len(n.d) >= P(n.d, 0) + FOOTER
(* the values of a tree                                                      *)
Values(ok, vs) == [ok |-> ok, vs |-> vs]
Tree(f, o) ==
  LET root == NodeAt(f, o, 24)
      branch == NodeAt(f, P(root.d, 8), 28)
      leaf == NodeAt(f, P(branch.d, 12), 52)
      depth == P(root.d, 0)
  IN IF ~root.ok THEN Values(FALSE, <<>>)
     ELSE IF depth > 2 THEN Values(FALSE, <<>>)
     ELSE IF depth = 0 THEN Values(TRUE, <<>>)
     ELSE IF depth = 1 THEN Values(TRUE, <<P(root.d, 8)>>)
     ELSE IF ~IsSet(P(root.d, 8)) THEN Values(TRUE, <<>>)
     ELSE IF ~branch.ok THEN Values(FALSE, <<>>)
     ELSE IF ~IsSet(P(branch.d, 12)) THEN Values(TRUE, <<>>)
     ELSE IF ~leaf.ok THEN Values(FALSE, <<>>)
     ELSE Values(TRUE, [i \in 1..10 |-> P(leaf.d, 4 * i - 4)])
(* a class definition, of a branch node                                      *)
Def(res, c) == [res |-> res, c |-> c]
Definition(f, o) ==
  LET branch == NodeAt(f, o, 32)
      leaf == NodeAt(f, P(branch.d, 12), 1)
      q == P(leaf.d, 0)
      c == Class(Block(leaf.d, 0), P(branch.d, 12))
  IN IF ~branch.ok THEN Def("fail", <<>>)
     ELSE IF ~IsSet(P(branch.d, 12)) THEN Def("none", <<>>)
     ELSE IF ~leaf.ok \/ ~BlockOk(leaf.d, 0) THEN Def("fail", <<>>)
     ELSE IF ~BlockOk(leaf.d, q) THEN Def("fail", <<>>)
     ELSE IF LET end == q + P(leaf.d, q) IN Len(leaf.d) < end + Pad(end, 4) + FOOTER THEN Def("fail", <<>>)
     ELSE IF ~c.ok THEN Def("fail", <<>>)
     ELSE Def("ok", c.c)
(* an instance, of a branch node; it is laid out as its class says           *)
Inst(res) == [res |-> res, i |-> <<>>]
InstanceAt(f, o) ==
  LET branch == NodeAt(f, o, 32)
      root == NodeAt(f, P(branch.d, 4), 44)
      c == Definition(f, P(root.d, 4))
      leaf == NodeAt(f, P(branch.d, 12), 1)
      l == Layout(<<c.c>>)
      i == Instance(Block(leaf.d, 0), l)
  IN IF ~branch.ok THEN Inst("fail")
     ELSE IF ~IsSet(P(branch.d, 4)) \/ ~IsSet(P(branch.d, 12)) \/ P(branch.d, 8) # 2 THEN Inst("none")
     ELSE IF ~root.ok THEN Inst("fail")
     ELSE IF ~IsSet(P(root.d, 4)) THEN Inst("none")
     ELSE IF c.res # "ok" THEN Inst(c.res)
     ELSE IF ~leaf.ok \/ ~BlockOk(leaf.d, 0) THEN Inst("fail")
     ELSE IF Len(leaf.d) < P(leaf.d, 0) + FOOTER THEN Inst("fail")
     ELSE IF ~l.ok THEN Inst("fail")
     ELSE IF ~i.ok THEN Inst("fail")
     ELSE [res |-> "ok", i |-> [name |-> l.name, derivation |-> l.derivation, dynasty |-> l.dynasty, super |-> l.super, ps |-> i.ps, ns |-> <<>>]]

-----------------------------------------------------------------------------
(* what is to be read: a node of a kind at an offset; path are the nodes of  *)
(* the same kind above it (of a list: those before it), names the namespaces *)
Todo(k, o, path, names) == [k |-> k, o |-> o, path |-> path, names |-> names, to |-> ""]
Those(k, to, o, path, names) == [k |-> k, o |-> o, path |-> path, names |-> names, to |-> to]
When(b, s) == IF b THEN s ELSE <<>>
Each(k, vs, path, names) == FlatSeq([i \in 1..Len(vs) |-> When(IsSet(vs[i]), <<Todo(k, vs[i], path, names)>>)])
Read(ok, todo, e) == [ok |-> ok, todo |-> todo, ev |-> e]
BAD == Read(FALSE, <<>>, <<>>)
Found(i) == <<[k |-> "!instance", v |-> i]>>

ReadList(t) == LET n == NodeAt(File, t.o, 32) IN IF ~n.ok THEN BAD ELSE Read(TRUE, <<Those("element", t.to, P(n.d, 4), <<>>, <<>>)>>, <<>>)
ReadElement(t) ==
  LET n == NodeAt(File, t.o, 40)
  IN IF ~IsSet(t.o) THEN Read(TRUE, <<>>, <<>>)
     ELSE IF \E j \in 1..Len(t.path) : t.path[j] = t.o THEN BAD
     ELSE IF ~n.ok THEN BAD
     ELSE IF IsSet(P(n.d, 4)) /\ ~NameOk(File, P(n.d, 4)) THEN BAD
     ELSE Read(TRUE, Each(t.to, <<P(n.d, 8)>>, <<>>, <<>>) \o <<Those("element", t.to, P(n.d, 24), Append(t.path, t.o), <<>>)>>, <<>>)
ReadTree(t) == LET v == Tree(File, t.o) IN IF ~v.ok THEN BAD ELSE Read(TRUE, Each(t.to, v.vs, t.path, t.names), <<>>)
ReadName(t) == IF NameOk(File, t.o) THEN Read(TRUE, <<>>, <<>>) ELSE BAD
ReadUnknown(t) == IF UnknownOk(File, t.o) THEN Read(TRUE, <<>>, <<>>) ELSE BAD
ReadInst(t) == LET i == InstanceAt(File, t.o) IN IF i.res = "fail" THEN BAD ELSE Read(TRUE, <<>>, IF i.res = "ok" THEN Found(i.i) ELSE <<>>)
(* a class: its definition, its instances and its sub classes                *)
ReadClass(t) ==
  LET n == NodeAt(File, t.o, 44)
      path == Append(t.path, t.o)
  IN IF \E j \in 1..Len(t.path) : t.path[j] = t.o THEN BAD
     ELSE IF ~n.ok THEN BAD
     ELSE IF IsSet(P(n.d, 4)) /\ Definition(File, P(n.d, 4)).res = "fail" THEN BAD
     ELSE Read(TRUE, When(IsSet(P(n.d, 16)), <<Those("list", "instance", P(n.d, 16), <<>>, <<>>)>>)
                     \o When(IsSet(P(n.d, 20)) /\ P(n.d, 12) \in {9, 10}, <<Those("tree", "class", P(n.d, 20), path, <<>>)>>)
                     \o When(R.debug /\ IsSet(P(n.d, 28)), <<Those("tree", "name", P(n.d, 28), <<>>, <<>>)>>), <<>>)
(* the definition of a class of a namespace, for the report                  *)
ReadListed(t) ==
  LET n == NodeAt(File, t.o, 44)
  IN IF ~n.ok THEN BAD ELSE IF IsSet(P(n.d, 4)) /\ Definition(File, P(n.d, 4)).res = "fail" THEN BAD ELSE Read(TRUE, <<>>, <<>>)
(* an instance with those below it                                           *)
Children(n, to, path, names) == When(IsSet(P(n.d, 0)) /\ LE(n.d, 0, 4) # <<255, 255, 255, 255>>, <<Those("tree", to, P(n.d, 0), path, names)>>)
ReadInstances(t) ==
  LET n == NodeAt(File, t.o, 40)
      path == Append(t.path, t.o)
      i == InstanceAt(File, P(n.d, 8))
  IN IF \E j \in 1..Len(t.path) : t.path[j] = t.o THEN BAD
     ELSE IF ~n.ok THEN BAD
     ELSE IF R.debug /\ IsSet(P(n.d, 4)) /\ ~NameOk(File, P(n.d, 4)) THEN BAD
     ELSE IF IsSet(P(n.d, 8)) /\ i.res = "fail" THEN BAD
     ELSE Read(TRUE, When(R.debug /\ IsSet(P(n.d, 24)) /\ P(n.d, 20) = 0, <<Todo("unknown", P(n.d, 24), <<>>, <<>>)>>)
                     \o Children(n, "value", path, <<>>)
                     \o When(R.debug /\ IsSet(P(n.d, 16)), <<Those("list", "listed", P(n.d, 16), <<>>, <<>>)>>),
               IF IsSet(P(n.d, 8)) /\ i.res = "ok" THEN Found(i.i) ELSE <<>>)
ReadValue(t) ==
  LET n == NodeAt(File, t.o, 20)
  IN IF ~n.ok THEN BAD
     ELSE IF R.debug /\ t.k = "value" /\ IsSet(P(n.d, 0)) /\ ~NameOk(File, P(n.d, 0)) THEN BAD
     ELSE Read(TRUE, Each(IF t.k = "value" THEN "instances" ELSE "namespace", <<P(n.d, 4)>>, t.path, t.names), <<>>)
(* a namespace with those below it: its name is that of its instance, after  *)
(* the names of the namespaces above it                                      *)
RECURSIVE PathText(_)
PathText(names) == IF Len(names) = 1 THEN names[1] ELSE names[1] \o <<92>> \o PathText(Tail(names))
ReadNamespace(t) ==
  LET n == NodeAt(File, t.o, 40)
      i == InstanceAt(File, P(n.d, 8))
      name == Get(i.i.ps, Lit("Name"))
      names == Append(t.names, name.v)
  IN IF \E j \in 1..Len(t.path) : t.path[j] = t.o THEN BAD
     ELSE IF ~n.ok THEN BAD
     ELSE IF ~IsSet(P(n.d, 8)) THEN Read(TRUE, <<>>, <<>>)
     ELSE IF i.res = "fail" THEN BAD
     ELSE IF i.res = "none" THEN Read(TRUE, <<>>, <<>>)
     ELSE IF name.t # "str" THEN BAD
     ELSE Read(TRUE, Children(n, "nsvalue", Append(t.path, t.o), names), Found([i.i EXCEPT !.ns = PathText(names)]))
ReadTodo(t) ==
  CASE t.k = "list" -> ReadList(t) [] t.k = "element" -> ReadElement(t) [] t.k = "tree" -> ReadTree(t) [] t.k = "name" -> ReadName(t)
    [] t.k = "unknown" -> ReadUnknown(t) [] t.k = "instance" -> ReadInst(t) [] t.k = "class" -> ReadClass(t) [] t.k = "listed" -> ReadListed(t)
    [] t.k = "instances" -> ReadInstances(t) [] t.k \in {"value", "nsvalue"} -> ReadValue(t) [] t.k = "namespace" -> ReadNamespace(t)

-----------------------------------------------------------------------------
InitSt == st = [pc |-> "run", i |-> 1, f |-> 1, open |-> FALSE, root |-> 0, class |-> 0, at |-> 0, n |-> 0, bin |-> 0, stack |-> <<>>, read |-> 0] /\ ev = <<>>
Op == R.ops[st.i]
More == st.pc = "run" /\ st.i <= Len(R.ops)
End(res) == <<[k |-> "!end", v |-> [op |-> Op.op, res |-> res]]>>
Go(s) == st' = s /\ UNCHANGED sc
Back(s) == [s EXCEPT !.pc = "run", !.i = @ + 1, !.stack = <<>>]
(* the file is opened: its header says the numbers of the two cells          *)
Open ==
  /\ More /\ Op.op = "open"
  /\ IF Len(R.files[Op.f]) < 40 THEN Go([Back(st) EXCEPT !.open = FALSE]) /\ ev' = End("ParseError")
     ELSE Go([st EXCEPT !.pc = "scan", !.f = Op.f, !.open = TRUE, !.root = 0, !.class = 0, !.at = 40, !.n = 0, !.bin = P(R.files[Op.f], 36)]) /\ ev' = <<>>
(* the next cell; a bin that starts here has a header                        *)
Scan ==
  /\ st.pc = "scan"
  /\ LET head == st.at = st.bin
         at == IF head THEN st.at + 4 ELSE st.at
         c == CellAt(File, at)
         isRoot == P(File, 4) = st.n
         isClass == ~isRoot /\ P(File, 0) = st.n
         root == IF isRoot THEN at + 4 ELSE st.root
         class == IF isClass THEN at + 4 ELSE st.class
         found == ~R.debug /\ root # 0 /\ class # 0
         s == [st EXCEPT !.at = at + c.size, !.n = @ + 1, !.bin = IF head THEN MinOf(@ + P(File, st.at), 1073741824) ELSE @, !.root = root, !.class = class]
     IN IF st.at >= Len(File) THEN Go(Back(st)) /\ ev' = End("ok")
        ELSE IF head /\ ~Fits(File, st.at, 4) THEN Go([Back(st) EXCEPT !.open = FALSE]) /\ ev' = End("ParseError")
        ELSE IF ~c.ok THEN Go([Back(st) EXCEPT !.open = FALSE]) /\ ev' = End("ParseError")
        ELSE IF c.size = 0 THEN Go(Back(st)) /\ ev' = End("ok")
        ELSE IF found THEN Go(Back(s)) /\ ev' = End("ok")
        ELSE Go(s) /\ ev' = <<>>
Start ==
  /\ More /\ st.open /\ Op.op \in {"namespaces", "instances", "classes"}
  /\ LET o == IF Op.op = "classes" THEN st.class ELSE st.root
         k == CASE Op.op = "classes" -> "class" [] Op.op = "instances" -> "instances" [] OTHER -> "namespace"
     IN Go([st EXCEPT !.pc = "walk", !.read = 0, !.stack = When(IsSet(o), <<Todo(k, o, <<>>, <<>>)>>)]) /\ ev' = <<>>
Walk ==
  /\ st.pc = "walk"
  /\ LET r == ReadTodo(st.stack[1])
     IN IF st.stack = <<>> THEN Go(Back(st)) /\ ev' = End("ok")
        ELSE IF ~r.ok THEN Go(Back(st)) /\ ev' = End("ParseError")
        ELSE Go([st EXCEPT !.stack = r.todo \o Tail(@), !.read = @ + 1]) /\ ev' = r.ev
Close == More /\ Op.op = "close" /\ Go([Back(st) EXCEPT !.open = FALSE]) /\ ev' = End("ok")
(* after a file that could not be opened there is nothing to read            *)
Skip == More /\ ~st.open /\ Op.op \notin {"open", "close"} /\ Go(Back(st)) /\ ev' = <<>>
Finish == st.pc = "run" /\ st.i > Len(R.ops) /\ Go([st EXCEPT !.pc = "done"]) /\ ev' = <<>>
Next == Open \/ Scan \/ Start \/ Walk \/ Close \/ Skip \/ Finish
Done == st.pc = "done"
Outcomes == {"ok"}
-----------------------------------------------------------------------------
(* no node is below (or, in a list, after) itself: the walk ends             *)
NoLoop == \A i \in 1..Len(st.stack) : \A j, k \in 1..Len(st.stack[i].path) : st.stack[i].path[j] = st.stack[i].path[k] => j = k
(* a namespace has a name for each of those above it                         *)
NamesOfPath == \A i \in 1..Len(st.stack) : st.stack[i].k \in {"namespace", "nsvalue"} => Len(st.stack[i].names) = Len(st.stack[i].path)
(* only offsets that are set are followed                                    *)
OnlySet == \A i \in 1..Len(st.stack) : IsSet(st.stack[i].o) \/ st.stack[i].k = "element"
=============================================================================
