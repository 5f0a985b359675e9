------------------------------ MODULE FsHelper ------------------------------
(* The file system helpers: paths, directories and files as seen by the     *)
(* readers.  Every operation asks the tree below a root directory; a path   *)
(* is text, absolute or relative to the current directory.                  *)
EXTENDS Text

CONSTANT Src(_)
(* [helper : "native" | "dfvfs", root : Seq(name), cwd : Seq(name),         *)
(*  tree : Seq([path : Seq(name), dir : BOOLEAN, data : bytes]),            *)
(*  ops : Seq([op, p : text, segs : Seq(name)])]                            *)
(* root and cwd are absolute; tree is sorted and complete (parents listed). *)

VARIABLES sc, st, ev
vars == <<sc, st, ev>>

S == Src(sc)
SEP == 47
DOT == <<46>>
UP == <<46, 46>>

-----------------------------------------------------------------------------
(* paths as text *)
RECURSIVE Parts(_, _)
Parts(p, i) == IF i > Len(p) THEN <<<<>>>>
               ELSE LET rest == Parts(p, i + 1) IN
                    IF p[i] = SEP THEN <<<<>>>> \o rest
                    ELSE <<(<<p[i]>> \o rest[1])>> \o Tail(rest)
Segments(p) == Parts(p, 1)
RECURSIVE LastSep(_, _)
LastSep(p, i) == IF i = 0 THEN 0 ELSE IF p[i] = SEP THEN i ELSE LastSep(p, i - 1)
RECURSIVE RStripSep(_)
RStripSep(p) == IF Len(p) > 0 /\ p[Len(p)] = SEP THEN RStripSep(SubSeq(p, 1, Len(p) - 1)) ELSE p

Base(p) == SubSeq(p, LastSep(p, Len(p)) + 1, Len(p))
Parent(p) == LET head == SubSeq(p, 1, LastSep(p, Len(p))) IN
             IF \A i \in 1..Len(head) : head[i] = SEP THEN head ELSE RStripSep(head)
IsAbs(p) == Len(p) > 0 /\ p[1] = SEP

(* the names from the root to what an absolute or relative path names       *)
RECURSIVE Lexical(_, _)
Lexical(ss, acc) ==
  IF Len(ss) = 0 THEN acc
  ELSE IF ss[1] = <<>> \/ ss[1] = DOT THEN Lexical(Tail(ss), acc)
  ELSE IF ss[1] = UP THEN Lexical(Tail(ss), IF Len(acc) = 0 THEN acc ELSE SubSeq(acc, 1, Len(acc) - 1))
  ELSE Lexical(Tail(ss), Append(acc, ss[1]))
Split(p) == Lexical(Segments(p), IF IsAbs(p) THEN <<>> ELSE S.cwd)
Join(segs) == IF Len(segs) = 0 THEN <<SEP>> ELSE FlatSeq([i \in 1..Len(segs) |-> <<SEP>> \o segs[i]])

-----------------------------------------------------------------------------
(* the tree: what a path names, walking it name by name *)
None == [kind |-> "none", at |-> <<>>, i |-> 0]
IsPrefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Node(at) ==
  IF IsPrefix(at, S.root) THEN [kind |-> "dir", at |-> at, i |-> 0]
  ELSE LET hits == {i \in 1..Len(S.tree) : S.root \o S.tree[i].path = at} IN
       IF hits = {} THEN None
       ELSE LET i == CHOOSE h \in hits : TRUE IN [kind |-> IF S.tree[i].dir THEN "dir" ELSE "file", at |-> at, i |-> i]
RECURSIVE Walk(_, _)
Walk(ss, node) ==
  IF Len(ss) = 0 \/ node.kind = "none" THEN node
  ELSE IF node.kind = "file" THEN None
  ELSE IF ss[1] = <<>> \/ ss[1] = DOT THEN Walk(Tail(ss), node)
  ELSE IF ss[1] = UP THEN Walk(Tail(ss), Node(IF Len(node.at) = 0 THEN <<>> ELSE SubSeq(node.at, 1, Len(node.at) - 1)))
  ELSE Walk(Tail(ss), Node(Append(node.at, ss[1])))
Lookup(p) == IF p = <<>> THEN None
             ELSE Walk(Segments(p), Node(IF IsAbs(p) THEN <<>> ELSE S.cwd))
Children(at) == SelectSeq([i \in 1..Len(S.tree) |-> i],
                          LAMBDA i : LET q == S.root \o S.tree[i].path IN Len(q) = Len(at) + 1 /\ IsPrefix(at, q))
Names(at) == LET c == Children(at) IN [j \in 1..Len(c) |-> S.tree[c[j]].path[Len(S.tree[c[j]].path)]]

-----------------------------------------------------------------------------
Told(k, v) == <<[k |-> k, v |-> v]>>
(* what is missing: the native helper raises OSError, dfVFS says there is nothing *)
Missing == IF S.helper = "native" THEN Told("oserror", <<>>) ELSE Told("nothing", <<>>)

Answer(o) ==
  LET node == Lookup(o.p) IN
  CASE o.op = "base" -> Told("text", Base(o.p))
    [] o.op = "dir" -> Told("text", Parent(o.p))
    [] o.op = "split" -> Told("segments", Split(o.p))
    [] o.op = "join" -> Told("text", Join(o.segs))
    [] o.op = "exists" -> Told("bool", <<IF node.kind = "none" THEN 0 ELSE 1>>)
    [] o.op = "size" -> IF node.kind = "none" THEN Missing ELSE Told("size", <<Len(S.tree[node.i].data)>>)
    [] o.op = "list" -> IF node.kind = "dir" THEN Told("names", Names(node.at))
                        ELSE IF S.helper = "native" THEN Told("oserror", <<>>) ELSE Told("names", <<>>)
    [] o.op = "open" -> IF node.kind = "file" THEN Told("data", S.tree[node.i].data) ELSE Missing
    (* read through the names: split the path, join them again, open that *)
    [] o.op = "again" -> LET n2 == Lookup(Join(Split(o.p))) IN
                         IF n2.kind = "file" THEN Told("data", S.tree[n2.i].data) ELSE Missing
    (* a sibling: the directory of the path with another last name *)
    [] o.op = "sibling" -> LET segs == Split(o.p)
                               n2 == Lookup(Join(SubSeq(segs, 1, Len(segs) - 1) \o o.segs)) IN
                           IF n2.kind = "file" THEN Told("data", S.tree[n2.i].data) ELSE Missing

InitSt == st = [pc |-> "run", i |-> 1] /\ ev = <<>>
Do(o) == ev' = Answer(o) /\ st' = [st EXCEPT !.i = @ + 1] /\ UNCHANGED sc
Next == \/ st.pc = "run" /\ st.i <= Len(S.ops) /\ Do(S.ops[st.i])
        \/ st.pc = "run" /\ st.i > Len(S.ops) /\ st' = [st EXCEPT !.pc = "done"] /\ ev' = <<>> /\ UNCHANGED sc
Done == st.pc = "done"
Outcomes == {"ok"}

-----------------------------------------------------------------------------
(* splitting and joining a path names the same thing, whatever the current  *)
(* directory is                                                             *)
SameThing == \A i \in 1..Len(S.ops) :
  LET o == S.ops[i] node == Lookup(o.p) IN
  o.op \in {"open", "exists", "list", "split"} /\ node.kind # "none" =>
    Lookup(Join(Split(o.p))) = node
(* joining and splitting gives the names back *)
RoundTrip == \A i \in 1..Len(S.ops) :
  S.ops[i].op = "join" /\ (\A j \in 1..Len(S.ops[i].segs) : S.ops[i].segs[j] \notin {<<>>, DOT, UP})
     => Split(Join(S.ops[i].segs)) = S.ops[i].segs
(* a directory and a last name put together name the path again *)
BaseInParent == \A i \in 1..Len(S.ops) :
  LET p == S.ops[i].p IN
  S.ops[i].op \in {"base", "dir"} /\ Lookup(p).kind # "none" /\ Base(p) # <<>> =>
    Lookup((IF Parent(p) = <<>> THEN DOT ELSE Parent(p)) \o <<SEP>> \o Base(p)) = Lookup(p)
=============================================================================
