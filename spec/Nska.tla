--------------------------------- MODULE Nska ---------------------------------
(* NSKeyedArchiver property lists.  The objects of an archive are a flat list *)
(* that refer to each other by number; a decoder follows the references from  *)
(* the entries at the top.  A value is a node: [t, s, l] of type t, of which  *)
(* s has the text, bytes or number and l the nodes in it (of a dictionary     *)
(* every key followed by its value).  R.files is the history of archives that *)
(* one decoder reads.                                                         *)
EXTENDS Text
CONSTANT Src(_)
VARIABLES sc, st, ev
vars == <<sc, st, ev>>
R == Src(sc)
File == R.files[st.f]
Objects == File.objects

Node(t, s, l) == [t |-> t, s |-> s, l |-> l]
NONE == Node("none", <<>>, <<>>)
Text_(x) == Node("str", x, <<>>)
Ok(v) == [ok |-> TRUE, v |-> v]
FAIL == [ok |-> FALSE, v |-> NONE]
Pairs(d) == [i \in 1..(Len(d.l) \div 2) |-> [k |-> d.l[2 * i - 1], v |-> d.l[2 * i]]]
Dict(ps) == Node("dict", <<>>, FlatSeq([i \in 1..Len(ps) |-> <<ps[i].k, ps[i].v>>]))
HasKey(d, name) == \E i \in 1..Len(Pairs(d)) : Pairs(d)[i].k = Text_(Lit(name))
Value(d, name) == IF HasKey(d, name) THEN Pairs(d)[CHOOSE i \in 1..Len(Pairs(d)) : Pairs(d)[i].k = Text_(Lit(name))].v ELSE NONE
Falsy(n) ==
  CASE n.t = "none" -> TRUE
    [] n.t = "bool" -> n.s = <<0>>
    [] n.t \in {"int", "float"} -> n.s \in {Lit("0"), Lit("0.0"), Lit("-0.0")}
    [] n.t \in {"str", "bytes"} -> n.s = <<>>
    [] n.t \in {"list", "dict"} -> n.l = <<>>
    [] OTHER -> FALSE
(* a reference, also as the dictionary an XML property list has for it; the   *)
(* number of an object that is not there is 0                                 *)
IsRef(n) == n.t = "uid" \/ (n.t = "dict" /\ Len(n.l) = 2 /\ HasKey(n, "CF$UID"))
Number(n) ==
  LET i == IF n.t = "uid" THEN n ELSE Value(n, "CF$UID")
      v == Sat(DigitsNat(i.s, 10))
  IN IF i.t \notin {"uid", "int"} \/ i.s[1] = 45 THEN 0 ELSE IF v >= Len(Objects) THEN 0 ELSE v + 1

(* base 64 with - and _                                                       *)
Base64Char(i) == CASE i < 26 -> 65 + i [] i < 52 -> 71 + i [] i < 62 -> i - 4 [] i = 62 -> 45 [] OTHER -> 95
RECURSIVE Base64(_)
Base64(b) ==
  IF Len(b) = 0 THEN <<>>
  ELSE LET x == b[1] * 65536 + (IF Len(b) > 1 THEN b[2] * 256 ELSE 0) + (IF Len(b) > 2 THEN b[3] ELSE 0)
           c(k) == Base64Char((x \div k) % 64)
       IN <<c(262144), c(4096), IF Len(b) > 1 THEN c(64) ELSE 61, IF Len(b) > 2 THEN c(1) ELSE 61>> \o Base64(SubSeq(b, 4, Len(b)))

Composites == {"BackgroundItemContainer", "BackgroundItems", "BackgroundLoginItem", "Bookmark", "BTMUserSettings", "ItemRecord", "Storage"}
Kind(name) ==
  CASE name \in {Lit(x) : x \in Composites} -> "composite"
    [] name \in {Lit("NSArray"), Lit("NSMutableArray")} -> "array"
    [] name \in {Lit("NSDictionary"), Lit("NSMutableDictionary")} -> "dictionary"
    [] name \in {Lit("NSSet"), Lit("NSMutableSet")} -> "set"
    [] name = Lit("NSHashTable") -> "table"
    [] name = Lit("NSURL") -> "url"
    [] name = Lit("NSUUID") -> "uuid"
    [] OTHER -> ""
(* a dictionary has a key once: the last value, in the place of the first     *)
RECURSIVE Put(_, _)
Put(ps, rest) ==
  IF rest = <<>> THEN ps
  ELSE LET p == Head(rest)
           at == {i \in 1..Len(ps) : ps[i].k = p.k}
       IN Put(IF at = {} THEN Append(ps, p) ELSE [i \in 1..Len(ps) |-> IF i \in at THEN p ELSE ps[i]], Tail(rest))

(* path has the references that are followed, with how                        *)
RECURSIVE Decode(_, _)
List(l, path) ==
  LET vs == [i \in 1..Len(l) |-> Decode(l[i], path)]
  IN IF \A i \in 1..Len(l) : vs[i].ok THEN Ok(Node("list", <<>>, [i \in 1..Len(l) |-> vs[i].v])) ELSE FAIL
Members(o, skip, path) ==
  LET ps == SelectSeq(Pairs(o), LAMBDA p : p.k.s \notin {Lit(x) : x \in skip})
      vs == [i \in 1..Len(ps) |-> Decode(ps[i].v, path)]
  IN IF \A i \in 1..Len(ps) : vs[i].ok THEN Ok(Dict([i \in 1..Len(ps) |-> [k |-> ps[i].k, v |-> vs[i].v]])) ELSE FAIL
Element(n, path) ==
  LET i == Number(n)
      on == path \cup {<<"element", i>>}
  IN IF ~IsRef(n) \/ i = 0 THEN FAIL
     ELSE IF <<"element", i>> \in path THEN FAIL
     ELSE IF Objects[i].t # "dict" THEN Decode(Objects[i], on) ELSE Members(Objects[i], {"$class", "container"}, on)
Set(l, path) ==
  LET vs == [i \in 1..Len(l) |-> Element(l[i], path)]
  IN IF \A i \in 1..Len(l) : vs[i].ok THEN Ok(Node("list", <<>>, [i \in 1..Len(l) |-> vs[i].v])) ELSE FAIL
Dictionary(o, path) ==
  LET ks == Value(o, "NS.keys")
      vs == Value(o, "NS.objects")
      k == List(ks.l, path)
      v == List(vs.l, path)
  IN IF ks.t # "list" \/ vs.t # "list" \/ Len(ks.l) # Len(vs.l) THEN FAIL
     ELSE IF ~k.ok \/ ~v.ok THEN FAIL
     ELSE IF \E i \in 1..Len(k.v.l) : k.v.l[i].t \in {"list", "dict"} THEN FAIL
     ELSE Ok(Dict(Put(<<>>, [i \in 1..Len(k.v.l) |-> [k |-> k.v.l[i], v |-> v.v.l[i]]])))
Url(o, path) ==
  LET b == Decode(Value(o, "NS.base"), path)
      r == Decode(Value(o, "NS.relative"), path)
  IN IF ~HasKey(o, "NS.base") \/ ~HasKey(o, "NS.relative") THEN FAIL
     ELSE IF ~b.ok \/ ~r.ok THEN FAIL
     ELSE IF r.v.t # "str" THEN FAIL
     ELSE IF Falsy(b.v) THEN r
     ELSE IF b.v.t # "str" THEN FAIL
     ELSE Ok(Text_(b.v.s \o <<47>> \o r.v.s))
Instance(kind, o, path) ==
  LET ns == Value(o, "NS.objects")
      id == Value(o, "NS.uuidbytes")
  IN CASE kind = "composite" -> Members(o, {"$class"}, path)
       [] kind = "array" -> IF ns.t # "list" THEN FAIL ELSE List(ns.l, path)
       [] kind = "set" -> IF ns.t # "list" THEN FAIL ELSE Set(ns.l, path)
       [] kind = "dictionary" -> Dictionary(o, path)
       [] kind = "table" -> Element(Value(o, "$1"), path)
       [] kind = "url" -> Url(o, path)
       [] kind = "uuid" -> IF id.t # "bytes" \/ Len(id.s) # 16 THEN FAIL ELSE Ok(Text_(Uuid(id.s)))
       [] OTHER -> FAIL
(* an object that has no class (or a class that has no name) is as it is      *)
Object(o, path) ==
  LET c == Decode(Value(o, "$class"), path)
      name == Value(c.v, "$classname")
  IN IF Falsy(Value(o, "$class")) THEN Ok(o)
     ELSE IF ~c.ok THEN FAIL
     ELSE IF c.v.t # "dict" THEN FAIL
     ELSE IF Falsy(name) THEN Ok(o)
     ELSE IF name.t # "str" THEN FAIL
     ELSE Instance(Kind(name.s), o, path)
Decode(n, path) ==
  IF IsRef(n) THEN LET i == Number(n) IN IF i = 0 THEN FAIL ELSE IF <<"value", i>> \in path THEN FAIL ELSE Decode(Objects[i], path \cup {<<"value", i>>})
  ELSE CASE n.t \in {"none", "bool", "int", "float"} -> Ok(n)
         [] n.t = "bytes" -> Ok(Text_(Base64(n.s)))
         [] n.t = "str" -> Ok(IF n.s = Lit("$null") THEN NONE ELSE n)
         [] n.t = "dict" -> Object(n, path)
         [] n.t = "list" -> List(n.l, path)
         [] OTHER -> FAIL

InitSt == st = [pc |-> "run", f |-> 1, i |-> 1, top |-> <<>>] /\ ev = <<>>
Go(s) == st' = s /\ UNCHANGED sc
End(res, v) == Go([st EXCEPT !.f = @ + 1, !.i = 1, !.top = <<>>]) /\ ev' = <<[k |-> "!end", v |-> [res |-> res, v |-> v]]>>
More == st.pc = "run" /\ st.f <= Len(R.files)
Archive == File.archiver = Text_(Lit("NSKeyedArchiver")) /\ File.version = Node("int", Lit("100000"), <<>>)
Refuse == More /\ ~Archive /\ End("RuntimeError", NONE)
Entry ==
  /\ More /\ Archive /\ st.i <= Len(Pairs(File.top))
  /\ LET p == Pairs(File.top)[st.i]
         v == IF IsRef(p.v) THEN Decode(p.v, {}) ELSE Ok(p.v)
     IN IF ~v.ok THEN End("RuntimeError", NONE)
        ELSE Go([st EXCEPT !.i = @ + 1, !.top = Append(@, [k |-> p.k, v |-> v.v])]) /\ ev' = <<>>
All == More /\ Archive /\ st.i > Len(Pairs(File.top)) /\ End("ok", Dict(st.top))
Finish == st.pc = "run" /\ st.f > Len(R.files) /\ Go([st EXCEPT !.pc = "done"]) /\ ev' = <<>>
Next == Refuse \/ Entry \/ All \/ Finish
Done == st.pc = "done"
Outcomes == {"ok"}
-----------------------------------------------------------------------------
(* every entry at the top is decoded, in order, under its own name            *)
InOrder == st.pc = "run" /\ st.f <= Len(R.files) => \A i \in 1..Len(st.top) : st.top[i].k = Pairs(File.top)[i].k
=============================================================================
