---------------------------- MODULE ULSupportMC -----------------------------
(* Two ranges of every layout (apart, adjacent, overlapping, empty) with     *)
(* every image index, and every reference around their bounds; timesync      *)
(* records of every size around their own.                                   *)
EXTENDS ULSupport, Json
CONSTANTS Refs, Sizes
MCSrc(x) == x.src
Strings == Lit("ab") \o <<0>> \o Lit("cde") \o <<0>> \o Lit("f") \o <<0>>
Images == {0, 1, 2}
Dsc == [kind : {"dsc"}, v : {1, 2}, a : {0, 4}, an : Sizes, b : {4, 8}, bn : Sizes, x : Images, y : {0, 1}, r : Refs, d : BOOLEAN]
Text2 == [kind : {"uuidtext"}, a : {0, 4}, an : Sizes, b : {4, 8}, bn : Sizes, r : Refs]
Time == [kind : {"timesync"}, p : {"b", "s", "x"}, q : {"b", "s", ""}, pn : {0, 31, 32, 47, 48, 56}]
W(v) == IF v = 1 THEN 4 ELSE 8
Base(v) == IF v = 1 THEN 16 + 2 * 16 + 2 * 28 ELSE 16 + 2 * 24 + 2 * 32
Rng(v, at, size, data, u) == IF v = 1 THEN EncLE(u, 4) \o EncLE(at, 4) \o EncLE(data, 4) \o EncLE(size, 4)
                             ELSE EncLE(at, 8) \o EncLE(data, 4) \o EncLE(size, 4) \o EncLE(u, 8)
Img(v, text, size, id, path) == EncLE(text, W(v)) \o EncLE(size, 4) \o [i \in 1..16 |-> id] \o EncLE(path, 4)
Rec(p, n) == CASE p = "b" -> <<176, 187>> \o EncLE(n, 2) \o [i \in 1..44 |-> i + 100]
               [] p = "s" -> <<84, 115>> \o EncLE(n, 2) \o [i \in 1..28 |-> i + 10]
               [] p = "x" -> <<84, 116>> \o EncLE(n, 2) \o [i \in 1..28 |-> i + 10]
               [] OTHER -> <<>>
Own(p) == IF p = "b" THEN 48 ELSE 32
MkData(s) ==
  CASE s.kind = "dsc" -> Lit("hcsd") \o EncLE(s.v, 2) \o EncLE(0, 2) \o EncLE(2, 4) \o EncLE(2, 4)
         \o Rng(s.v, s.a, s.an, Base(s.v), s.x) \o Rng(s.v, s.b, s.bn, Base(s.v) + 3, s.y)
         \o Img(s.v, 2, 3, 170, Base(s.v) + 7) \o Img(s.v, 5, 2, 187, Base(s.v)) \o Strings
    [] s.kind = "uuidtext" -> <<153, 136, 119, 102>> \o EncLE(2, 4) \o EncLE(1, 4) \o EncLE(2, 4)
         \o EncLE(s.a, 4) \o EncLE(s.an, 4) \o EncLE(s.b, 4) \o EncLE(s.bn, 4) \o Strings
    [] OTHER -> Rec(s.p, s.pn) \o Zeros(MaxOf(0, s.pn - Own(s.p))) \o Rec(s.q, Own(s.q))
MkSrc(s) == [kind |-> s.kind, data |-> MkData(s),
             refs |-> CASE s.kind = "dsc" -> <<[r |-> EncLE(s.r, 8), d |-> s.d]>>
                        [] s.kind = "uuidtext" -> <<[r |-> EncLE(s.r, 8), d |-> FALSE]>>
                        [] OTHER -> <<>>]
MCInit == (\E s \in Dsc \cup Text2 \cup Time : sc = [src |-> MkSrc(s)]) /\ InitSt
MCSpec == MCInit /\ [][Next]_vars /\ WF_vars(Next)
Terminates == <>Done
MCDump == Done => PrintT("SCEN " \o ToJson([src |-> S]))
=============================================================================
