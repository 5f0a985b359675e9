------------------------------ MODULE DetectMC -------------------------------
EXTENDS Detect, Json
CONSTANTS MaxTail
MCSrc(x) == x.src
W(s) == FlatSeq([i \in 1..Len(s) |-> <<s[i], 0>>])
PadTo8(s) == s \o Zeros((8 - (Len(s) % 8)) % 8)
V4(size, type, data) == PadTo8(EncLE(size, 4) \o EncLE(type, 4) \o data)
VV(type, data) == V4(Len(data), type, data)
Str(s) == VV(21, W(s) \o <<0, 0>>)
Tv(p) == CASE p = "byte" -> EncLE(6, 4) \o W(<<107, 49>>) \o <<0, 0>> \o EncLE(5, 4) \o <<255>>
           [] p = "int" -> EncLE(2, 4) \o <<0, 0>> \o EncLE(3, 4) \o <<255, 255, 255, 255>>
           [] p = "long" -> EncLE(0, 4) \o EncLE(4, 4) \o <<1, 0, 0, 0, 0, 0, 0, 128>>
           [] p = "str" -> EncLE(4, 4) \o W(<<107, 50>>) \o EncLE(6, 4) \o EncLE(6, 4) \o <<172, 32, 0, 0, 65, 0>>
           [] p = "five" -> EncLE(4, 4) \o W(<<107, 0>>) \o EncLE(7, 4) \o <<1, 2, 3, 4, 5>>
           [] p = "odd" -> EncLE(3, 4) \o <<107, 0, 107>> \o EncLE(5, 4) \o <<1>>
           [] p = "type" -> EncLE(0, 4) \o EncLE(8, 4) \o <<1>>
           [] p = "short" -> EncLE(0, 4) \o EncLE(4, 4) \o <<1>>
           [] p = "far" -> EncLE(0, 4) \o EncLE(6, 4) \o <<255, 255, 255, 255>>
Parts == {"byte", "int", "long", "str", "five", "odd", "type", "short", "far"}
(* tracking data without and with a header; d is added to the stated size    *)
Track(h, d, ps) == LET body == FlatSeq([i \in 1..Len(ps) |-> Tv(ps[i])]) IN
  IF h = 0 THEN EncLE(4 + Len(body) + d, 4) \o body
  ELSE EncLE(1, 4) \o EncLE(h, 4) \o EncLE(Len(body), 4) \o EncLE(h + 4 + Len(body) + d, 4) \o Zeros(MaxOf(4, h - 16)) \o EncLE(Len(body), 4) \o body
Magic == Str(MAGIC)
Set0 == VV(5, EncLE(77, 4)) \o VV(30, [i \in 1..16 |-> i * 15])
Set1(cat) == Magic \o Str(<<84, 114>>) \o VV(0, <<0, 0, 0, 0>>) \o VV(6, EncLE(1, 4)) \o cat
Cats == {VV(5, EncLE(8, 4)), VV(8, EncLE(51, 8)), VV(10, EncLE(35, 8)), VV(5, <<255, 255, 255, 255>>), Str(<<56>>), VV(40, <<0, 39, 255>>)}
Tails == {VV(5, EncLE(1, 4)), VV(10, <<0, 128, 62, 213, 222, 177, 157, 1>>), VV(8, <<255, 255, 255, 255, 255, 255, 255, 255>>), Str(<<>>), VV(40, <<>>), Magic,
          V4(3, 5, <<1, 2, 3>>), V4(8, 0, <<1, 2, 3, 4, 5, 6, 7, 8>>), VV(1, <<1>>), VV(21, <<0, 216>>), VV(21, <<65>>), VV(21, <<65, 0, 0, 0, 66>>), V4(400, 40, <<1>>)}
Set2(five) == Magic \o Str(<<102, 105, 108, 101>>) \o Str(<<67, 58>>) \o VV(5, EncLE(0, 4)) \o VV(6, EncLE(9, 4)) \o five
Scen == UNION {[set : {0}, tail : [1..n -> Tails], cut : {0, 1, 8}] : n \in 0..MaxTail}
        \cup [set : {1}, cat : Cats, tail : [1..1 -> Tails], cut : {0}]
        \cup UNION {[set : {2}, h : {0}, d : {0, 1}, ps : [1..n -> Parts], tail : {<<>>}, cut : {0}] : n \in 0..2}
        \cup [set : {2}, h : {16, 20, 24, 1000}, d : {0, 1, 9}, ps : [1..1 -> Parts] \cup {<<>>}, tail : {<<VV(5, EncLE(1, 4)), Magic>>}, cut : {0}]
        \cup [set : {3}, five : {VV(5, EncLE(1, 4)), Str(<<65>>), VV(40, <<>>), VV(40, <<1, 0, 0>>), VV(40, <<1, 0, 0, 0>>), VV(40, <<0, 0, 0, 0>>), Magic}, tail : [1..1 -> Tails], cut : {0}]
Whole(s) == CASE s.set = 0 -> Set0 \o FlatSeq(s.tail)
              [] s.set = 1 -> Set0 \o Set1(s.cat) \o FlatSeq(s.tail)
              [] s.set = 2 -> Set0 \o Set1(VV(5, EncLE(8, 4))) \o Set2(VV(40, Track(s.h, s.d, s.ps))) \o FlatSeq(s.tail)
              [] OTHER -> Set0 \o Set1(VV(5, EncLE(8, 4))) \o Set2(s.five) \o FlatSeq(s.tail)
MkSrc(s) == LET w == Whole(s) IN SubSeq(w, 1, Len(w) - s.cut)
MCInit == (\E s \in Scen : sc = [s |-> s, src |-> MkSrc(s)]) /\ InitSt
MCSpec == MCInit /\ [][Next]_vars /\ WF_vars(Next)
Terminates == <>Done
MCDump == Done => PrintT("SCEN " \o ToJson([src |-> F]))
=============================================================================
