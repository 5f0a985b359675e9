------------------------------ MODULE ULFormat ------------------------------
(* Apple unified logging: format strings, their operators and the decoders   *)
(* of values.  A format string is a sequence of code points; an operator is  *)
(*   %[{decoders}][flags][width][.precision][length modifier]specifier       *)
(* and %% is a literal %.                                                    *)
EXTENDS Text, UlTables

Ch(s) == Lit(s)[1]
InStr(c, s) == \E i \in 1..Len(s) : ORD[SubSeq(s, i, i)] = c
IsNum(c) == c >= 48 /\ c <= 57

(* the first position at or after i with an element outside the class        *)
RECURSIVE SkipNum(_, _)
SkipNum(s, i) == IF i <= Len(s) /\ IsNum(s[i]) THEN SkipNum(s, i + 1) ELSE i
RECURSIVE SkipFlags(_, _, _)
SkipFlags(s, i, n) == IF n < 5 /\ i <= Len(s) /\ InStr(s[i], "-+0 #") THEN SkipFlags(s, i + 1, n + 1) ELSE i
RECURSIVE FindFrom(_, _, _)
FindFrom(s, i, c) == IF i > Len(s) THEN 0 ELSE IF s[i] = c THEN i ELSE FindFrom(s, i + 1, c)
RECURSIVE NumVal(_, _)
NumVal(s, acc) == IF s = <<>> THEN acc ELSE NumVal(Tail(s), MinOf(acc * 10 + s[1] - 48, 100000))

NoMatch == [ok |-> FALSE]
(* an operator at position i of s, where s[i] is %                           *)
OperatorAt(s, i) ==
  LET hasDec == i + 1 <= Len(s) /\ s[i + 1] = Ch("{")
      close == IF hasDec THEN FindFrom(s, i + 2, Ch("}")) ELSE 0
      decOk == ~hasDec \/ (close > i + 2 /\ close - i - 2 <= 128)
      dec == IF hasDec THEN SubSeq(s, i + 2, close - 1) ELSE <<>>
      a == IF hasDec THEN close + 1 ELSE i + 1
      b == SkipFlags(s, a, 0)
      star == b <= Len(s) /\ s[b] = Ch("*")
      c == IF star THEN b + 1 ELSE SkipNum(s, b)
      dot == c <= Len(s) /\ s[c] = Ch(".")
      pstar == dot /\ c + 1 <= Len(s) /\ s[c + 1] = Ch("*")
      d == IF ~dot THEN c ELSE IF pstar THEN c + 2 ELSE SkipNum(s, c + 1)
      e == IF d <= Len(s) /\ InStr(s[d], "hl") THEN (IF d + 1 <= Len(s) /\ s[d + 1] = s[d] THEN d + 2 ELSE d + 1)
           ELSE IF d <= Len(s) /\ InStr(s[d], "jLtqz") THEN d + 1 ELSE d
  IN IF ~decOk THEN NoMatch
     ELSE IF e > Len(s) \/ ~InStr(s[e], "@aAcCdDeEfFgGimnoOpPsSuUxX") THEN NoMatch
     ELSE [ok |-> TRUE, next |-> e + 1, dec |-> dec, fl |-> SubSeq(s, a, b - 1),
           w |-> IF star \/ c = b THEN -1 ELSE NumVal(SubSeq(s, b, c - 1), 0),
           hasp |-> dot,
           p |-> IF ~dot \/ pstar THEN -1 ELSE NumVal(SubSeq(s, c + 1, d - 1), 0),
           spec |-> s[e]]

(* --- the names of the decoders of an operator --------------------------- *)
IsSpace(c) == c \in {32} \cup (9..13) \cup (28..31) \cup {133, 160}
RECURSIVE LStrip(_)
LStrip(s) == IF s # <<>> /\ IsSpace(s[1]) THEN LStrip(Tail(s)) ELSE s
Strip(s) == Rev(LStrip(Rev(LStrip(s))))
RECURSIVE SplitOn(_, _)
SplitOn(s, c) == LET i == IndexOfVal(s, c) IN
                 IF i = 0 THEN <<s>> ELSE <<SubSeq(s, 1, i - 1)>> \o SplitOn(SubSeq(s, i + 1, Len(s)), c)
RECURSIVE JoinOn(_, _)
JoinOn(ss, sep) == IF Len(ss) = 0 THEN <<>> ELSE IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o sep \o JoinOn(Tail(ss), sep)
IGNORED == {Lit("bluetooth:OI_STATUS"), Lit("private"), Lit("public"), Lit("sensitive"), Lit("xcode:size-in-bytes"), <<>>}
Internal(spec) ==
  CASE InStr(spec, "@sP") -> <<Lit("internal:s")>>
    [] InStr(spec, "aAeEfFgG") -> <<Lit("internal:f")>>
    [] InStr(spec, "dDi") -> <<Lit("internal:i")>>
    [] InStr(spec, "coOpuUxX") -> <<Lit("internal:u")>>
    [] InStr(spec, "m") -> <<Lit("internal:m")>>
    [] OTHER -> <<>>
DecoderNames(op) ==
  LET all == [i \in 1..Len(SplitOn(op.dec, 44)) |-> Strip(SplitOn(op.dec, 44)[i])]
      Keep(x) == x \notin IGNORED /\ ~StartsWith(x, Lit("name="))
      kept == SelectSeq(all, Keep)
  IN IF kept = <<>> THEN Internal(op.spec) ELSE kept

(* --- printf rendering --------------------------------------------------- *)
Rep(c, n) == [i \in 1..MaxOf(0, n) |-> c]
HasFlag(op, c) == \E i \in 1..Len(op.fl) : op.fl[i] = Ch(c)
(* decimals with a width and a precision are zero padded to the width       *)
ZeroHack(op) == op.spec = Ch("d") /\ op.w >= 0 /\ op.hasp
Minus(op) == ~ZeroHack(op) /\ HasFlag(op, "-")
ZeroFill(op) == ZeroHack(op) \/ (HasFlag(op, "0") /\ ~HasFlag(op, "-"))
SignOf(op, neg) == IF neg THEN <<45>>
                   ELSE IF ZeroHack(op) \/ ~InStr(op.spec, "aAdDeEfFgGim") THEN <<>>
                   ELSE IF HasFlag(op, "+") THEN <<43>> ELSE IF HasFlag(op, " ") THEN <<32>> ELSE <<>>
Justify(op, text) == IF op.w <= Len(text) THEN text
                     ELSE IF Minus(op) THEN text \o Rep(32, op.w - Len(text))
                     ELSE Rep(32, op.w - Len(text)) \o text
Number(op, sign, prefix, body) ==
  IF ZeroFill(op) THEN sign \o prefix \o Rep(48, op.w - Len(sign) - Len(prefix) - Len(body)) \o body
  ELSE Justify(op, sign \o prefix \o body)

RECURSIVE OctAcc(_, _)
OctAcc(n, acc) == IF n = <<>> THEN acc ELSE LET qr == DivMod(n, 8) IN OctAcc(qr[1], <<48 + qr[2]>> \o acc)
Oct(n) == IF Norm(n) = <<>> THEN <<48>> ELSE OctAcc(Norm(n), <<>>)
Upper(s) == [i \in 1..Len(s) |-> IF s[i] >= 97 /\ s[i] <= 122 THEN s[i] - 32 ELSE s[i]]

DefaultOp(spec) == [ok |-> TRUE, dec |-> <<>>, fl |-> <<>>, w |-> -1, hasp |-> FALSE, p |-> -1, spec |-> Ch(spec)]
(* an integer <<sign>> \o magnitude                                         *)
IntText(op, v) ==
  LET mag == Norm(Tail(v))
      sp == op.spec
      body == CASE InStr(sp, "oO") -> Oct(mag)
                [] InStr(sp, "xp") -> HexRaw(mag, 1)
                [] InStr(sp, "X") -> Upper(HexRaw(mag, 1))
                [] OTHER -> Dec(mag)
      alt == HasFlag(op, "#") /\ mag # <<>>
      prefix == CASE InStr(sp, "p") -> Lit("0x")
                  [] InStr(sp, "x") /\ alt -> Lit("0x")
                  [] InStr(sp, "X") /\ alt -> Lit("0X")
                  [] InStr(sp, "oO") /\ alt -> Lit("0o")
                  [] OTHER -> <<>>
  IN Number(op, SignOf(op, v[1] = 1), prefix, body)
UNSUPPORTED == Lit("<decode: unsupported value>")
CharText(op, mag) == IF Sat(mag) > 1114111 THEN UNSUPPORTED ELSE Justify(op, <<Sat(mag)>>)
StringText(op, t) ==
  LET cut == IF op.spec # Ch("P") /\ op.p > 0 /\ op.p < Len(t) THEN SubSeq(t, 1, op.p) ELSE t IN Justify(op, cut)

(* the magnitude of a floating-point number times 10^k, rounded half even   *)
RECURSIVE Pow10N(_)
Pow10N(k) == IF k = 0 THEN <<1>> ELSE MulAdd(Pow10N(k - 1), 10, 0)
RECURSIVE Div10(_, _, _)
Div10(n, k, exact) == IF k = 0 THEN <<n, exact>> ELSE LET qr == DivMod(n, 10) IN Div10(qr[1], k - 1, exact /\ qr[2] = 0)
Scaled(f, k) ==
  LET n1 == MulAdd(f.m, 2, 0)
      n2 == IF f.e > 0 THEN Norm(ShlN(n1, f.e)) ELSE n1
      n == IF k > 0 THEN MulN(n2, Pow10N(k)) ELSE n2
      s == IF f.e < 0 THEN Norm(ShrN(n, -f.e)) ELSE n
      ex1 == f.e >= 0 \/ Norm(ShlN(s, -f.e)) = n
      td == IF k < 0 THEN Div10(s, -k, ex1) ELSE <<s, ex1>>
      qr == DivMod(td[1], 2)
      odd == qr[1] # <<>> /\ qr[1][1] % 2 = 1
  IN IF qr[2] = 1 /\ (~td[2] \/ odd) THEN AddN(qr[1], <<1>>) ELSE qr[1]
(* digits with a decimal point p places from the end                        *)
Point(d, p, alt) == LET x == Rep(48, p + 1 - Len(d)) \o d IN
               IF p = 0 THEN x \o (IF alt THEN <<46>> ELSE <<>>)
               ELSE SubSeq(x, 1, Len(x) - p) \o <<46>> \o SubSeq(x, Len(x) - p + 1, Len(x))
FixText(f, p, alt) == Point(Dec(Scaled(f, p)), p, alt)
(* the decimal exponent of a number that is not 0: the smallest with which  *)
(* it rounds to p + 1 digits                                                 *)
Digits(f, k) == LET s == Scaled(f, k) IN IF Norm(s) = <<>> THEN 0 ELSE Len(Dec(s))
RECURSIVE ExpDown(_, _, _)
ExpDown(f, p, x) == IF Digits(f, p - x) > p + 1 THEN x ELSE ExpDown(f, p, x - 1)
RECURSIVE ExpUp(_, _, _)
ExpUp(f, p, x) == IF Digits(f, p - x) <= p + 1 THEN x ELSE ExpUp(f, p, x + 1)
Exponent(f, p) == IF f.m = <<>> THEN 0 ELSE ExpUp(f, p, ExpDown(f, p, Len(Dec(Scaled(f, 0))) - 2))
ExpDigits(x) == (IF x < 0 THEN <<45>> ELSE <<43>>) \o (LET a == IF x < 0 THEN -x ELSE x IN IF a < 100 THEN Two(a) ELSE DecI(a))
MantText(f, p, x, alt) == IF f.m = <<>> THEN Point(Rep(48, p + 1), p, alt) ELSE Point(Dec(Scaled(f, p - x)), p, alt)
SciText(f, p, alt, e) == LET x == Exponent(f, p) IN MantText(f, p, x, alt) \o <<e>> \o ExpDigits(x)
RECURSIVE StripTrail(_)
StripTrail(s) == IF s # <<>> /\ s[Len(s)] = 48 THEN StripTrail(SubSeq(s, 1, Len(s) - 1))
                 ELSE IF s # <<>> /\ s[Len(s)] = 46 THEN SubSeq(s, 1, Len(s) - 1) ELSE s
Trim(s) == IF IndexOfVal(s, 46) = 0 THEN s ELSE StripTrail(s)
GenText(f, p0, alt, e) ==
  LET p == IF p0 = 0 THEN 1 ELSE p0
      x == Exponent(f, p - 1)
      T(s) == IF alt THEN s ELSE Trim(s)
  IN IF x < p /\ x >= -4 THEN T(FixText(f, p - 1 - x, alt))
     ELSE T(MantText(f, p - 1, x, alt)) \o <<e>> \o ExpDigits(x)
FloatBody(op, f) ==
  LET p == IF op.p < 0 THEN 6 ELSE op.p
      alt == HasFlag(op, "#")
      body == CASE f.special -> IF f.nan THEN Lit("nan") ELSE Lit("inf")
                [] InStr(op.spec, "aAfF") -> FixText(f, p, alt)
                [] InStr(op.spec, "eE") -> SciText(f, p, alt, 101)
                [] OTHER -> GenText(f, p, alt, 101)
  IN IF InStr(op.spec, "EFG") THEN Upper(body) ELSE body
FloatOp(op, f) == Number(op, SignOf(op, f.neg /\ ~(f.special /\ f.nan)), <<>>, FloatBody(op, f))
FloatOf(v) == IF Len(v) = 4 THEN F32(v) ELSE F64(v)

(* --- the decoders ------------------------------------------------------- *)
Txt(t) == [ok |-> TRUE, t |-> t]
BAD == [ok |-> FALSE, t |-> <<>>]
IntSize(v) == Len(v) \in {1, 2, 4, 8}
Utf8Of(v) == LET u == Utf8(v) IN IF u[1] THEN [ok |-> TRUE, t |-> RStrip0(u[2])] ELSE BAD
Bool(v, f, t) == Txt(IF AllZero(v) THEN Lit(f) ELSE Lit(t))
Unknown(d) == Lit("<decode: unknown value: ") \o d \o <<62>>
Look(table, n) == IF \E r \in table : r.n = n THEN Lit((CHOOSE r \in table : r.n = n).s) ELSE <<>>
(* a code of 4 bytes, unsigned: codes from BIG on are never defined         *)
Code(table, v) == IF Len(v) # 4 THEN UNSUPPORTED
                  ELSE LET l == Look(table, LEi(v, 0, 4)) IN IF l # <<>> THEN l ELSE Unknown(Dec(v))
SInt(v) == LET s == TwosC(v) IN IF s[1] = 1 THEN -Sat(Tail(s)) ELSE Sat(Tail(s))
ErrText(v) == LET l == Look(Errno, SInt(v)) IN IF l # <<>> THEN l ELSE Unknown(DecS(TwosC(v)))

Bit(n, k) == (n \div Pow2(k)) % 2 = 1
ModeText(v) ==
  LET n == LEi(v, 0, 2)
      kind == (n \div 4096) % 16
      t == CASE kind = 1 -> "p" [] kind = 2 -> "c" [] kind = 4 -> "d" [] kind = 6 -> "b" [] kind = 10 -> "l" [] kind = 12 -> "s" [] OTHER -> "-"
      P(k, c) == IF Bit(n, k) THEN c ELSE 45
  IN <<Ch(t), P(8, 114), P(7, 119), P(6, 120), P(5, 114), P(4, 119), P(3, 120), P(2, 114), P(1, 119), P(0, 120)>>
Dots(v) == JoinOn([i \in 1..Len(v) |-> DecI(v[i])], <<46>>)
Pair(v, i) == <<HexChar(v[2 * i - 1] \div 16), HexChar(v[2 * i - 1] % 16), HexChar(v[2 * i] \div 16), HexChar(v[2 * i] % 16)>>
Colons(v) == JoinOn([i \in 1..8 |-> Pair(v, i)], <<58>>)
SockText(v) ==
  IF v = <<>> THEN Lit("<NULL>")
  ELSE IF Len(v) = 16 /\ v[2] = 2 THEN Dots(SubSeq(v, 5, 8))
  ELSE IF Len(v) = 28 /\ v[2] = 30 THEN
    LET a == SubSeq(v, 9, 24) IN
    IF AllZero(a) THEN Lit("::")
    ELSE JoinOn([i \in 1..8 |-> IF a[2 * i - 1] = 0 /\ a[2 * i] = 0 THEN <<>> ELSE Pair(a, i)], <<58>>)
  ELSE UNSUPPORTED
(* seconds relative to 1970, of the years 1 to 9999                         *)
TimeTText(v) ==
  LET s == TwosC(v)
      n == Norm(Tail(s))
      qr == DivMod(n, 86400)
  IN IF s[1] = 0 THEN (IF LtN(<<127, 65, 244, 255, 58>>, n) THEN UNSUPPORTED ELSE DateTimeText(n, 0))
     ELSE IF LtN(<<0, 9, 110, 136, 119, 14>>, n) \/ LtN(Nat2(719162), qr[1]) \/ (qr[1] = Nat2(719162) /\ qr[2] > 0) THEN UNSUPPORTED
     ELSE DateText(-Sat(qr[1]) - (IF qr[2] # 0 THEN 1 ELSE 0)) \o <<32>> \o TimeText(IF qr[2] # 0 THEN 86400 - qr[2] ELSE 0)
B64CHARS == "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
B64(i) == ORD[SubSeq(B64CHARS, i + 1, i + 1)]
RECURSIVE Base64(_)
Base64(v) ==
  IF v = <<>> THEN <<>>
  ELSE LET a == v[1] b == IF Len(v) > 1 THEN v[2] ELSE 0 c == IF Len(v) > 2 THEN v[3] ELSE 0 IN
       <<B64(a \div 4), B64((a % 4) * 16 + b \div 16),
         IF Len(v) > 1 THEN B64((b % 16) * 4 + c \div 64) ELSE 61,
         IF Len(v) > 2 THEN B64(c % 64) ELSE 61>> \o Base64(SubSeq(v, 4, Len(v)))
DNSFLAGS == <<[k |-> 10, s |-> "AA"], [k |-> 9, s |-> "TC"], [k |-> 8, s |-> "RD"], [k |-> 7, s |-> "RA"], [k |-> 5, s |-> "AD"], [k |-> 4, s |-> "CD"]>>
OPCODES == <<"Query", "IQuery", "Status", "Unassigned", "Notify", "Update", "DSO">>
RCODES == <<"NoError", "FormErr", "ServFail", "NXDomain", "NotImp", "Refused", "YXDomain", "YXRRSet", "NXRRSet", "NotAuth", "NotZone", "DSOTypeNI">>
DnsFlags(n) ==
  LET On(r) == Bit(n, r.k)
      set == SelectSeq(DNSFLAGS, On)
      op == (n \div 2048) % 16
      rc == n % 16
  IN (IF Bit(n, 15) THEN Lit("R/") ELSE Lit("Q/")) \o (IF op < 7 THEN Lit(OPCODES[op + 1]) ELSE <<63>>) \o Lit(", ")
     \o JoinOn([i \in 1..Len(set) |-> Lit(set[i].s)], Lit(", ")) \o Lit(", ")
     \o (IF rc < 12 THEN Lit(RCODES[rc + 1]) ELSE <<63>>)
Hex4U(i) == Lit("0x") \o Upper(HexRaw(Nat2(i), 4))
Counts(a, b, c, d) == JoinOn(<<DecI(a), DecI(b), DecI(c), DecI(d)>>, <<47>>)
IdFlags(id, fl) == Lit("id: ") \o Hex4U(id) \o Lit(" (") \o DecI(id) \o Lit("), flags: ") \o Hex4U(fl) \o Lit(" (") \o DnsFlags(fl) \o Lit(")")
SidText(v) ==
  IF Len(v) < 8 THEN Txt(UNSUPPORTED)
  ELSE IF Len(v) < 8 + 4 * v[2] THEN BAD
  ELSE Txt(Lit("S-") \o DecI(v[1]) \o <<45>> \o Dec(BE(v, 2, 6)) \o <<45>>
           \o JoinOn([i \in 1..v[2] |-> Dec(LE(v, 4 + 4 * i, 4))], <<45>>))
MBR == {[c |-> 35, g |-> FALSE, n |-> FALSE], [c |-> 36, g |-> FALSE, n |-> TRUE], [c |-> 68, g |-> TRUE, n |-> TRUE],
        [c |-> 160, g |-> FALSE, n |-> TRUE], [c |-> 163, g |-> FALSE, n |-> FALSE], [c |-> 164, g |-> FALSE, n |-> TRUE],
        [c |-> 195, g |-> TRUE, n |-> FALSE]}
MbrText(v) ==
  IF v = <<>> THEN Txt(UNSUPPORTED)
  ELSE IF ~\E r \in MBR : r.c = v[1] THEN Txt(Lit("ERROR: unsupported type: ") \o Hex(<<v[1]>>, 2))
  ELSE LET r == CHOOSE x \in MBR : x.c = v[1]
           who == IF r.g THEN Lit("group: ") ELSE Lit("user: ")
           z1 == IF r.n THEN FindFrom(v, 2, 0) ELSE 5
           z2 == IF z1 = 0 THEN 0 ELSE FindFrom(v, z1 + 1, 0)
       IN IF Len(v) < z1 \/ z1 = 0 \/ z2 = 0 THEN BAD
          ELSE LET dom == Utf8(SubSeq(v, z1 + 1, z2 - 1))
                   nam == IF r.n THEN Utf8(SubSeq(v, 2, z1 - 1)) ELSE <<TRUE, DecS(TwosC(SubSeq(v, 2, 5)))>>
               IN IF ~dom[1] \/ ~nam[1] THEN BAD ELSE Txt(who \o nam[2] \o <<64>> \o dom[2])
(* the location manager state: name, offset and kind of each value          *)
LV(n, o, k) == [n |-> n, o |-> o, k |-> k]
LMV == <<LV("previousAuthorizationStatusValid", 35, "b"), LV("paused", 60, "b"), LV("requestingLocation", 17, "b"),
  LV("updatingVehicleSpeed", 65, "b"), LV("desiredAccuracy", 8, "f"), LV("allowsBackgroundLocationUpdates", 61, "b"),
  LV("dynamicAccuracyReductionEnabled", 34, "b"), LV("distanceFilter", 0, "f"), LV("allowsLocationPrompts", 32, "b"),
  LV("activityType", 48, "q"), LV("groundAltitudeEnabled", 68, "b"), LV("pausesLocationUpdatesAutomatially", 56, "i"),
  LV("fusionInfoEnabled", 69, "b"), LV("isAuthorizedForWidgetUpdates", 71, "b"), LV("updatingVehicleHeading", 66, "b"),
  LV("batchingLocation", 64, "b"), LV("showsBackgroundLocationIndicator", 62, "b"), LV("updatingLocation", 16, "b"),
  LV("requestingRanging", 18, "b"), LV("updatingHeading", 20, "b"), LV("previousAuthorizationStatus", 36, "u"),
  LV("allowsMapCorrection", 63, "b"), LV("matchInfoEnabled", 67, "b"), LV("allowsAlteredAccessoryLoctions", 33, "b"),
  LV("updatingRanging", 19, "b"), LV("limitsPrecision", 40, "b"), LV("courtesyPromptNeeded", 70, "b"), LV("headingFilter", 24, "f")>>
LocVal(v, r) == CASE r.k = "b" -> IF v[r.o + 1] = 0 THEN Lit("false") ELSE Lit("true")
                  [] r.k = "w" -> IF AllZero(Sub(v, r.o, 4)) THEN Lit("false") ELSE Lit("true")
                  [] r.k = "u" -> Dec(LE(v, r.o, 4))
                  [] r.k = "i" -> DecS(TwosC(Sub(v, r.o, 4)))
                  [] r.k = "q" -> DecS(TwosC(Sub(v, r.o, 8)))
                  [] OTHER -> FloatOp([DefaultOp("f") EXCEPT !.p = 0], F64(Sub(v, r.o, 8)))
LocText(v, table) ==
  LET In(r) == r.o < Len(v)
      t == SelectSeq(table, In)
  IN <<123>> \o JoinOn([i \in 1..Len(t) |-> <<34>> \o Lit(t[i].n) \o <<34, 58>> \o LocVal(v, t[i])], <<44>>) \o <<125>>
RECURSIVE EscSlash(_)
EscSlash(s) == IF s = <<>> THEN <<>> ELSE (IF s[1] = 47 THEN <<92, 47>> ELSE <<s[1]>>) \o EscSlash(Tail(s))

(* the value of a signpost attribute or number, by its specifier            *)
SignText(v, op) ==
  LET sp == op.spec IN
  IF v = <<>> THEN <<>>
  ELSE CASE InStr(sp, "aAeEfFgG") -> IF Len(v) \notin {4, 8} THEN UNSUPPORTED
                                     ELSE FloatOp([DefaultOp("g") EXCEPT !.p = 16], FloatOf(v))
         [] InStr(sp, "cC") -> IF ~IntSize(v) THEN UNSUPPORTED ELSE CharText(op, v)
         [] InStr(sp, "oOpuUxX") -> IF ~IntSize(v) THEN UNSUPPORTED
                                    ELSE IF AllZero(v) /\ HasFlag(op, "#") /\ sp # Ch("p") /\ InStr(sp, "oOxX")
                                         THEN Number(op, <<>>, IF InStr(sp, "oO") THEN Lit("0o") ELSE IF InStr(sp, "x") THEN Lit("0x") ELSE Lit("0X"), <<48>>)
                                         ELSE IntText(op, <<0>> \o v)
         [] InStr(sp, "dDim") -> IF ~IntSize(v) THEN UNSUPPORTED ELSE IntText(op, TwosC(v))
         [] InStr(sp, "@sS") -> LET u == Utf8Of(v) IN IF u.ok THEN StringText(op, u.t) ELSE UNSUPPORTED
         [] OTHER -> UNSUPPORTED
Signpost(what, t) == Lit("__##__signpost.") \o Lit(what) \o Lit("#_##_#") \o t \o Lit("##__##")

NoOp == [DefaultOp("s") EXCEPT !.ok = FALSE]
(* what the decoder with a name makes of a value: BAD is a ParseError       *)
Decode(name, v, op) ==
  CASE name = "bool" -> Bool(v, "false", "true")
    [] name = "BOOL" -> Bool(v, "NO", "YES")
    [] name = "mdns:acceptable" -> Bool(v, "unacceptable", "acceptable")
    [] name = "mdns:addrmv" -> Bool(v, "rmv", "add")
    [] name = "mdns:yesno" -> Bool(v, "no", "yes")
    [] name \in {"darwin.errno", "errno"} ->
         Txt(IF Len(v) # 4 THEN UNSUPPORTED ELSE <<91>> \o DecS(TwosC(v)) \o Lit(": ") \o ErrText(v) \o <<93>>)
    [] name = "internal:m" -> Txt(IF Len(v) # 4 THEN UNSUPPORTED ELSE ErrText(v))
    [] name = "darwin.mode" -> Txt(ModeText(v))
    [] name \in {"in_addr", "network:in_addr"} -> Txt(IF Len(v) = 4 THEN Dots(v) ELSE UNSUPPORTED)
    [] name \in {"in6_addr", "network:in6_addr"} -> Txt(IF Len(v) = 16 THEN Colons(v) ELSE UNSUPPORTED)
    [] name \in {"sockaddr", "network:sockaddr"} -> Txt(SockText(v))
    [] name = "internal:f" ->
         Txt(IF Len(v) \notin {4, 8} THEN UNSUPPORTED ELSE FloatOp(IF op.ok THEN op ELSE DefaultOp("f"), FloatOf(v)))
    [] name = "internal:i" -> Txt(IF ~IntSize(v) THEN UNSUPPORTED ELSE IntText(IF op.ok THEN op ELSE DefaultOp("d"), TwosC(v)))
    [] name = "internal:u" ->
         Txt(IF ~IntSize(v) THEN UNSUPPORTED
             ELSE IF op.ok /\ InStr(op.spec, "cC") THEN CharText(op, v)
             ELSE IntText(IF op.ok THEN op ELSE DefaultOp("u"), <<0>> \o v))
    [] name = "internal:s" ->
         Txt(IF v = <<>> THEN Lit("(null)") ELSE LET u == Utf8Of(v) IN IF u.ok THEN StringText(op, u.t) ELSE UNSUPPORTED)
    [] name = "location:_CLClientManagerStateTrackerState" ->
         Txt(IF Len(v) # 8 THEN UNSUPPORTED
             ELSE LocText(v, <<LV("locationRestricted", 4, "w"), LV("locationServicesEnabledStatus", 0, "u")>>))
    [] name = "location:_CLLocationManagerStateTrackerState" ->
         Txt(IF Len(v) \notin {64, 72} THEN UNSUPPORTED ELSE LocText(v, LMV))
    [] name = "location:CLClientAuthorizationStatus" ->
         Txt(LET l == Look(ClAuth, Sat(v)) IN <<34>> \o (IF l # <<>> THEN l ELSE Unknown(Dec(v))) \o <<34>>)
    [] name = "location:escape_only" ->
         Txt(LET u == Utf8Of(v) IN IF u.ok THEN <<34>> \o EscSlash(u.t) \o <<34>> ELSE UNSUPPORTED)
    [] name = "location:SqliteResult" -> Txt(IF Len(v) # 4 THEN UNSUPPORTED ELSE <<34>> \o Code(Sqlite, v) \o <<34>>)
    [] name = "mask.hash" ->
         Txt(Lit("<mask.hash: ") \o (IF v = <<>> THEN Lit("(null)") ELSE <<39>> \o Base64(v) \o <<39>>) \o <<62>>)
    [] name = "mdns:dns.counts" ->
         Txt(IF Len(v) # 8 THEN UNSUPPORTED ELSE Counts(LEi(v, 6, 2), LEi(v, 4, 2), LEi(v, 2, 2), LEi(v, 0, 2)))
    [] name = "mdns:dns.idflags" -> Txt(IF Len(v) # 8 THEN UNSUPPORTED ELSE IdFlags(LEi(v, 2, 2), LEi(v, 0, 2)))
    [] name = "mdns:dnshdr" ->
         Txt(IF Len(v) # 12 THEN UNSUPPORTED
             ELSE IdFlags(BEi(v, 0, 2), BEi(v, 2, 2)) \o Lit(", counts: ") \o Counts(BEi(v, 4, 2), BEi(v, 6, 2), BEi(v, 8, 2), BEi(v, 10, 2)))
    [] name = "mdns:protocol" -> Txt(Code(MdnsProtocol, v))
    [] name = "mdns:nreason" -> Txt(Code(MdnsReason, v))
    [] name = "mdns:rrtype" -> Txt(Code(RrType, v))
    [] name = "odtypes:mbr_details" -> MbrText(v)
    [] name = "odtypes:mbridtype" -> Txt(Code(MbrType, v))
    [] name = "odtypes:nt_sid_t" -> SidText(v)
    [] name = "odtypes:ODError" -> Txt(Code(OdError, v))
    [] name = "signpost.description:attribute" -> Txt(Signpost("description#____#attribute", SignText(v, op)))
    [] name \in {"signpost.description:begin_time", "signpost.description:end_time"} ->
         Txt(IF Len(v) # 8 THEN UNSUPPORTED
             ELSE Signpost(IF name = "signpost.description:begin_time" THEN "description#____#begin_time" ELSE "description#____#end_time", Dec(v)))
    [] name = "signpost.telemetry:number1" -> Txt(Signpost("telemetry#____#number1", SignText(v, op)))
    [] name = "signpost.telemetry:number2" -> Txt(Signpost("telemetry#____#number2", SignText(v, op)))
    [] name = "signpost.telemetry:number3" -> Txt(Signpost("telemetry#____#number3", SignText(v, op)))
    [] name \in {"signpost.telemetry:string1", "signpost.telemetry:string2"} ->
         Txt(LET u == Utf8Of(v) IN
             IF ~u.ok THEN UNSUPPORTED
             ELSE Signpost(IF name = "signpost.telemetry:string1" THEN "telemetry#____#string1" ELSE "telemetry#____#string2", u.t))
    [] name = "time_t" -> Txt(TimeTText(v))
    [] name = "uuid_t" -> Txt(IF Len(v) = 16 THEN Upper(Uuid(v)) ELSE UNSUPPORTED)
    [] OTHER -> Txt(Lit("<decode: unsupported decoder: ") \o Lit(name) \o <<62>>)
(* a decoder name as a TLA+ string; unknown names with other characters     *)
Printable(s) == \A i \in 1..Len(s) : s[i] >= 32 /\ s[i] <= 126
DecodeBy(names, v, op) ==
  IF names = <<>> THEN Txt(Lit("<decode: missing decoder>"))
  ELSE IF ~Printable(names[1]) THEN Txt(Lit("<decode: unsupported decoder: ") \o names[1] \o <<62>>)
  ELSE Decode(StrOf(names[1]), v, op)
=============================================================================
