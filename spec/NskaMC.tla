-------------------------------- MODULE NskaMC --------------------------------
EXTENDS Nska, Json
CONSTANTS Kinds, Inners, Values, Targets, Bads
MCSrc(x) == x.src
Uid(i) == Node("uid", DecI(i), <<>>)
Key(x) == Text_(Lit(x))
D(s) == Node("dict", <<>>, s)
L(s) == Node("list", <<>>, s)
(* 0 $null, 1 the outer object, 2 its class, 3 the inner object, 4 its class,  *)
(* 5 a value                                                                  *)
V(v) == CASE v = "zero" -> Node("int", Lit("0"), <<>>) [] v = "false" -> Node("bool", <<0>>, <<>>) [] v = "empty" -> Key("") [] v = "text" -> Key("a")
          [] v = "data" -> Node("bytes", <<251, 240, 63, 1>>, <<>>) [] v = "list" -> L(<<Uid(0), Key("b")>>) [] v = "raw" -> D(<<Key("x"), Uid(5)>>)
          [] v = "date" -> Node("date", <<>>, <<>>) [] OTHER -> NONE
Obj(kind, class, one, other) ==
  LET c == <<Key("$class"), Uid(class)>>
      id == Node("bytes", [i \in 1..16 |-> i * 15], <<>>)
  IN CASE kind = "Storage" -> D(c \o <<Key("one"), one, Key("container"), other>>)
       [] kind \in {"NSArray", "NSMutableSet"} -> D(<<Key("NS.objects"), L(<<one, other>>)>> \o c)
       [] kind = "NSDictionary" -> D(c \o <<Key("NS.keys"), L(<<other, one>>), Key("NS.objects"), L(<<one, other>>)>>)
       [] kind = "NSHashTable" -> D(c \o <<Key("$0"), other, Key("$1"), one>>)
       [] kind = "NSURL" -> D(c \o <<Key("NS.base"), other, Key("NS.relative"), one>>)
       [] kind = "NSUUID" -> D(c \o <<Key("NS.uuidbytes"), id>>)
       [] OTHER -> D(c)
Class(kind) == D(<<Key("$classname"), Key(kind), Key("$classes"), L(<<Key(kind), Key("NSObject")>>)>>)
Scen == [outer : Kinds, inner : Inners, value : Values, target : Targets, bad : Bads]
MkFile(s) ==
  [archiver |-> Key(IF s.bad = "archiver" THEN "NSArchiver" ELSE "NSKeyedArchiver"), version |-> Node("int", IF s.bad = "version" THEN Lit("100001") ELSE Lit("100000"), <<>>),
   top |-> D(<<Key("root"), Uid(1), Key("plain"), V("raw"), Key("inner"), Uid(3)>>),
   objects |-> <<Key("$null"), Obj(s.outer, IF s.bad = "class" THEN 5 ELSE 2, Uid(3), IF s.bad = "inline" THEN V(s.value) ELSE Uid(5)), Class(s.outer),
                 Obj(s.inner, 4, Uid(s.target), Uid(0)), IF s.bad = "name" THEN D(<<Key("$classes"), L(<<>>)>>) ELSE Class(s.inner), V(s.value)>>]
MkSrc(s) == [files |-> <<MkFile(s), MkFile([s EXCEPT !.bad = "no", !.target = 5])>>]
VARIABLE seen
MCInit == (\E s \in Scen : sc = [s |-> s, src |-> MkSrc(s)]) /\ InitSt /\ seen = <<>>
MCNext == Next /\ seen' = seen \o ev'
MCSpec == MCInit /\ [][MCNext]_<<vars, seen>> /\ WF_<<vars, seen>>(MCNext)
Terminates == <>Done
S == sc.s
First == seen[1].v
(* an archive is read alike, whatever was read before it                      *)
Each == Done => Len(seen) = 2
Same == (Done /\ S.bad = "no" /\ S.target = 5) => seen[1] = seen[2]
(* only an archive of which a reference comes back to where it is, or is not  *)
(* there, or of which a type is not supported cannot be decoded               *)
Plain == {"Storage", "NSArray", "NSMutableSet"}
Decodes == (Done /\ S.bad \in {"no", "name"} /\ S.outer \in Plain /\ S.inner \in Plain /\ S.target \in {0, 5} /\ S.value # "date") => First.res = "ok"
Fails == (Done /\ S.inner \in Plain /\ S.target \in {3, 1, 9} /\ S.outer \in Plain /\ S.bad = "no") => First.res = "RuntimeError"
(* no element of an array or set, or value of an object is lost               *)
Whole == (Done /\ First.res = "ok" /\ S.bad # "name") =>
  LET root == Value(First.v, "root")
  IN /\ (S.outer \in {"NSArray", "NSMutableSet"} => root.t = "list" /\ Len(root.l) = 2)
     /\ (S.outer = "Storage" => root.t = "dict" /\ Len(root.l) = 4)
     /\ Value(First.v, "plain") = V("raw") /\ Len(First.v.l) = 6
MCDump == Done => PrintT("SCEN " \o ToJson([src |-> sc.src]))
=============================================================================
