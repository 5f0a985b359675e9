----------------------------- MODULE WmiObjectsMC -----------------------------
EXTENDS WmiObjects, Json
CONSTANTS Kinds, Names, Tops, Hows, Shapes
MCSrc(x) == x.src
U4(n) == EncLE(n, 4)
Wide(s) == FlatSeq([i \in 1..Len(s) |-> <<s[i], 0>>])
KindName(k) == CASE k = 8 -> Lit("String") [] k = 8200 -> Lit("string") [] k = 11 -> Lit("BOOLEAN") [] k = 17 -> Lit("uint8") [] k = 2 -> Lit("sint16")
                 [] k = 20 -> Lit("sint64") [] k = 102 -> Lit("ref:X") [] k = 8211 -> Lit("uint32") [] OTHER -> Lit("uint32")
Width(k) == IF k \in DOMAIN Sizes THEN Sizes[k] ELSE 4
(* a qualifier that has the value (a string of the values at o)              *)
TypeQ(how, o) == CASE how = "none" -> <<>> [] how = "number" -> <<10, 0, 0, 128, 0, 19, 0, 0, 0, 7, 0, 0, 0>>
                   [] OTHER -> <<10, 0, 0, 128, 1, 8, 0, 0, 0>> \o U4(o)
(* a class with one property: its values are the name of the class, the name *)
(* of the property, the name of its type and its definition                  *)
MkClass(name, sup, x) ==
  LET cn == <<0>> \o name \o <<0>>
      pn == <<1>> \o x.name \o <<0>>
      tn == <<0>> \o KindName(x.kind) \o <<0>>
      o1 == Len(cn)
      o2 == o1 + Len(pn)
      o3 == o2 + Len(tn)
      q == TypeQ(x.how, o2)
      def == U4(x.kind) \o <<x.index, 0>> \o U4(x.at) \o U4(0) \o U4(4 + Len(q)) \o q
      d == cn \o pn \o tn \o def
      sb == IF sup = <<>> THEN <<>> ELSE <<0>> \o sup \o <<0>>
      cq == IF x.abstract THEN U4(0) \o <<0>> \o U4(11) \o <<255, 255>> ELSE <<>>
      c == <<0>> \o U4(0) \o U4(1) \o U4(4 + Len(sb)) \o sb \o U4(4 + Len(cq)) \o cq \o U4(x.n)
           \o (IF x.n = 0 THEN <<>> ELSE (IF x.pre THEN <<3, 0, 0, 128>> ELSE U4(o1)) \o U4(o3)) \o <<9>> \o SubSeq(U4(Len(d)), 1, 3) \o <<128>> \o d
  IN U4(Len(sup)) \o Wide(sup) \o U4(1) \o U4(0) \o U4(4 + Len(c)) \o c
Hash == FlatSeq([i \in 1..32 |-> <<65, 0>>])
(* an instance: two values of 4 bytes each refer to the strings              *)
MkInstance(n, size, x) ==
  LET d == <<0, 67, 0>> \o <<0, 97, 0>> \o U4(2) \o U4(3) \o U4(0)
      fixed == SubSeq(FlatSeq([i \in 1..4 |-> (CASE x.off = "text" -> U4(3) [] x.off = "array" -> U4(6) [] x.off = "true" -> <<255, 255, 255, 255>> [] x.off = "far" -> U4(70) [] OTHER -> U4(0))]), 1, size)
      b == U4(0) \o <<1>> \o Zeros((n + 3) \div 4) \o fixed \o U4(4) \o (IF x.dyn THEN <<2>> \o U4(1) \o U4(5) \o <<8>> ELSE <<1>>) \o U4(11) \o d
      c == SubSeq(b, 1, Len(b) - (IF x.cut THEN 19 ELSE 0))
  IN Hash \o U4(0) \o U4(1) \o U4(2) \o U4(3) \o U4(4 + Len(c)) \o c
Scen == [k1 : Kinds, k2 : Kinds, n2 : Names, top : Tops, how : Hows, shape : Shapes]
Top(s) == [name |-> Lit("Ab"), kind |-> s.k1, index |-> 0, at |-> 0, how |-> "text", n |-> 1, abstract |-> TRUE, pre |-> FALSE]
Own(s) == [name |-> Lit(s.n2), kind |-> s.k2, index |-> 1, at |-> IF s.shape = "same" THEN 0 ELSE Width(s.k1), how |-> s.how, n |-> IF s.shape = "bare" THEN 0 ELSE 1, abstract |-> FALSE, pre |-> s.shape = "pre"]
MkSrc(s) ==
  LET classes == (IF s.top = "top2" THEN <<MkClass(Lit("A"), <<>>, [Top(s) EXCEPT !.n = 0])>> ELSE <<>>)
                 \o (IF s.top = "own" THEN <<>> ELSE <<MkClass(Lit("B"), IF s.top = "top2" THEN Lit("A") ELSE <<>>, Top(s))>>)
                 \o <<MkClass(Lit("C"), IF s.top = "own" THEN <<>> ELSE Lit("B"), Own(s))>>
      n == 2
      size == Width(s.k1) + Width(s.k2)
      x == [off |-> CASE s.shape \in {"array", "true", "far"} -> s.shape [] s.shape = "none" -> "zero" [] OTHER -> "text", dyn |-> s.shape = "dyn", cut |-> s.shape = "cut"]
      one == IF s.top = "own" \/ s.shape = "bare" THEN 1 ELSE 2
  IN [classes |-> classes, instances |-> IF s.shape = "noinst" THEN <<>> ELSE <<MkInstance(one, IF s.shape = "bare" THEN Width(s.k1) ELSE IF s.shape = "same" THEN Width(s.k2) ELSE size, x)>>,
      registrations |-> IF s.shape = "noinst" THEN <<U4(1) \o <<97, 0>> \o U4(0) \o U4(0) \o U4(2) \o <<98, 0, 99, 0>> \o Zeros(8)>> ELSE <<>>,
      v1 |-> TRUE, floats |-> FALSE]
MCInit == (\E s \in Scen : sc = [s |-> s, src |-> MkSrc(s)]) /\ InitSt
MCSpec == MCInit /\ [][Next]_vars /\ WF_vars(Next)
Terminates == <>Done
(* a class is described whatever the instances are; a property of the same   *)
(* name (in any case) takes the place of that of the super class             *)
Read == Len(st.cs) <= Len(sc.src.classes) /\ (st.pc \in {"instance", "done"} => Len(st.cs) = Len(sc.src.classes))
Overrides == (st.l # <<>> /\ sc.s.top # "own" /\ sc.s.shape \notin {"bare", "pre"}) =>
               Len(st.l[1].ps) = (IF Lower(Lit(sc.s.n2)) = Lit("ab") THEN 1 ELSE 2)
NeedsType == (sc.s.how # "text" /\ sc.s.top = "own" /\ sc.s.shape # "bare") => st.pc # "done"
Inherited == (sc.s.how = "none" /\ sc.s.top # "own" /\ sc.s.shape # "pre" /\ st.l # <<>>) => Lower(Lit(sc.s.n2)) = Lit("ab") \/ sc.s.shape = "bare"
MCDump == Done => PrintT("SCEN " \o ToJson([src |-> sc.src]))
=============================================================================
