-------------------------------- MODULE Text --------------------------------
(* Rendering of values as text: code point sequences.                       *)
EXTENDS Bytes

PRINTABLE == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
CHARS == [i \in 1..95 |-> SubSeq(PRINTABLE, i, i)]
ORD == [c \in {CHARS[i] : i \in 1..95} |-> 31 + CHOOSE i \in 1..95 : CHARS[i] = c]
(* the code points of a literal *)
Lit(s) == [i \in 1..Len(s) |-> ORD[SubSeq(s, i, i)]]
(* a TLA+ string for a code point sequence (printable ASCII only)           *)
RECURSIVE StrOf(_)
StrOf(cs) == IF Len(cs) = 0 THEN "" ELSE (IF cs[1] >= 32 /\ cs[1] <= 126 THEN CHARS[cs[1] - 31] ELSE "?") \o StrOf(Tail(cs))

RECURSIVE DecAcc(_, _)
DecAcc(b, acc) == IF Len(b) = 0 THEN acc
                  ELSE LET qr == DivMod(b, 1000000)
                           RECURSIVE Six(_, _)
                           Six(v, k) == IF k = 0 \/ (qr[1] = <<>> /\ v = 0) THEN <<>>
                                        ELSE Append(Six(v \div 10, k - 1), 48 + (v % 10))
                       IN DecAcc(qr[1], Six(qr[2], 6) \o acc)
(* decimal digits of a nat *)
Dec(b) == IF Norm(b) = <<>> THEN <<48>> ELSE DecAcc(Norm(b), <<>>)
DecI(i) == IF i < 0 THEN <<45>> \o Dec(Nat2(-i)) ELSE Dec(Nat2(i))
(* decimal of a signed value <<sign>> \o magnitude *)
DecS(s) == IF s[1] = 1 THEN <<45>> \o Dec(Tail(s)) ELSE Dec(Tail(s))

HexPairs(b) == FlatSeq([i \in 1..Len(b) |-> <<HexChar(b[Len(b) + 1 - i] \div 16), HexChar(b[Len(b) + 1 - i] % 16)>>])
RECURSIVE StripZ(_)
StripZ(s) == IF Len(s) > 1 /\ s[1] = 48 THEN StripZ(Tail(s)) ELSE s
(* hexadecimal of a nat with at least w digits, no prefix *)
HexRaw(b, w) == LET h == IF Norm(b) = <<>> THEN <<48>> ELSE StripZ(HexPairs(Norm(b))) IN
                [i \in 1..MaxOf(0, w - Len(h)) |-> 48] \o h
Hex(b, w) == <<48, 120>> \o HexRaw(b, w)
(* "N (0xNNNNNNNN)" *)
OffsetText(b) == Dec(b) \o <<32, 40>> \o Hex(b, 8) \o <<41>>

Two(i) == <<48 + i \div 10, 48 + (i % 10)>>
RECURSIVE ZeroPadI(_, _)
ZeroPadI(i, w) == IF w = 0 THEN <<>> ELSE Append(ZeroPadI(i \div 10, w - 1), 48 + (i % 10))

(* decimal with at least w digits *)
ZeroPadOver(i, w) == LET d == DecI(i) IN [j \in 1..MaxOf(0, w - Len(d)) |-> 48] \o d

(* civil date of a day number relative to 1970-01-01: <<year, month, day>> *)
Civil(days) ==
  LET z == days + 719468
      era == z \div 146097
      doe == z % 146097
      yoe == (doe - doe \div 1460 + doe \div 36524 - doe \div 146096) \div 365
      doy == doe - (365 * yoe + yoe \div 4 - yoe \div 100)
      mp == (5 * doy + 2) \div 153
      d == doy - (153 * mp + 2) \div 5 + 1
      m == IF mp < 10 THEN mp + 3 ELSE mp - 9
      y == yoe + era * 400 + (IF m <= 2 THEN 1 ELSE 0)
  IN <<y, m, d>>
YearText(y) == IF y > 9999 THEN DecI(y) ELSE ZeroPadI(y, 4)
DateText(days) == LET c == Civil(days) IN YearText(c[1]) \o <<45>> \o Two(c[2]) \o <<45>> \o Two(c[3])
TimeText(secs) == Two(secs \div 3600) \o <<58>> \o Two((secs \div 60) % 60) \o <<58>> \o Two(secs % 60)
UTC == <<32, 85, 84, 67>>
(* "YYYY-MM-DD hh:mm:ss" of a nat number of seconds since 1970 plus an     *)
(* offset in days                                                          *)
DateTimeText(b, day0) == LET qr == DivMod(b, 86400) IN DateText(Sat(qr[1]) + day0) \o <<32>> \o TimeText(qr[2])
NotSet == Lit("Not set (0)")
NoneText == Lit("None")
(* a date up to the year 9999 *)
PosixText(b) == IF Norm(b) = <<>> THEN NotSet
                ELSE IF LtN(<<127, 65, 244, 255, 58>>, Norm(b)) THEN Hex(b, 8) ELSE DateTimeText(b, 0) \o UTC
(* signed seconds relative to 1970 for small magnitudes *)
PosixTextS(s) == IF s[1] = 0 THEN PosixText(Tail(s))
                 ELSE LET v == Tail(s)
                          qr == DivMod(v, 86400)
                          neg == qr[2] # 0
                      IN DateText(-Sat(qr[1]) - (IF neg THEN 1 ELSE 0)) \o <<32>>
                         \o TimeText(IF neg THEN 86400 - qr[2] ELSE 0) \o UTC
(* FILETIME: 100 ns units since 1601-01-01 (134774 days before 1970)       *)
Never == <<255, 255, 255, 255, 255, 255, 255, 127>>
FiletimeText(b) ==
  IF Norm(b) = <<>> THEN NotSet
  ELSE IF Norm(b) = Never THEN Lit("Never (0x7fffffffffffffff)")
  ELSE LET q1 == DivMod(b, 10000)
           q2 == DivMod(q1[1], 1000)
           frac == q2[2] * 10000 + q1[2]
       IN DateTimeText(q2[1], -134774) \o <<46>> \o ZeroPadI(frac, 7) \o UTC
PosixMicroText(b) ==
  IF Norm(b) = <<>> THEN NotSet
  ELSE LET q1 == DivMod(b, 1000) q2 == DivMod(q1[1], 1000) IN
       DateTimeText(q2[1], 0) \o <<46>> \o ZeroPadI(q2[2] * 1000 + q1[2], 6) \o UTC
PosixNanoText(b) ==
  IF Norm(b) = <<>> THEN NotSet
  ELSE LET q1 == DivMod(b, 1000) q2 == DivMod(q1[1], 1000) q3 == DivMod(q2[1], 1000) IN
       DateTimeText(q3[1], 0) \o <<46>> \o ZeroPadI(q3[2], 3) \o ZeroPadI(q2[2], 3) \o ZeroPadI(q1[2], 3) \o UTC
(* HFS time: seconds since 1904-01-01 (24107 days before 1970)             *)
HfsText(b) == IF Norm(b) = <<>> THEN NotSet ELSE DateTimeText(b, -24107) \o UTC

(* signed hexadecimal as Python formats it: the sign takes one digit place   *)
HexS(s, w) == IF s[1] = 1 THEN <<48, 120, 45>> \o HexRaw(Tail(s), w - 1) ELSE Hex(Tail(s), w)

(* IEEE 754 double precision (8 little-endian bytes) shown with 6 decimals  *)
RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN 1 ELSE 2 * Pow2(k - 1)
ShlN(b, k) == IF Norm(b) = <<>> THEN <<>> ELSE Zeros(k \div 8) \o MulAdd(b, Pow2(k % 8), 0)
ShrN(b, k) == LET n == k \div 8 IN
              IF n >= Len(b) THEN <<>> ELSE DivMod(SubSeq(b, n + 1, Len(b)), Pow2(k % 8))[1]
F64(b) ==
  LET e == (b[8] % 128) * 16 + b[7] \div 16
      frac == Norm(SubSeq(b, 1, 6) \o <<b[7] % 16>>)
      m == IF e = 0 THEN frac ELSE AddN(frac, <<0, 0, 0, 0, 0, 0, 16>>)
  IN [neg |-> b[8] >= 128, special |-> e = 2047, nan |-> frac # <<>>, m |-> m, e |-> (IF e = 0 THEN 1 ELSE e) - 1075]
(* the magnitude truncated to an integer *)
F64Int(f) == IF f.e >= 0 THEN ShlN(f.m, f.e) ELSE Norm(ShrN(f.m, -f.e))
(* single precision (4 little-endian bytes) *)
F32(b) ==
  LET e == (b[4] % 128) * 2 + b[3] \div 128
      frac == Norm(SubSeq(b, 1, 2) \o <<b[3] % 128>>)
      m == IF e = 0 THEN frac ELSE AddN(frac, <<0, 0, 128>>)
  IN [neg |-> b[4] >= 128, special |-> e = 255, nan |-> frac # <<>>, m |-> m, e |-> (IF e = 0 THEN 1 ELSE e) - 150]
FloatText(f) ==
  LET x == MulN(f.m, <<64, 66, 15>>)
      k == -f.e
      q0 == Norm(ShrN(x, k))
      r == SubN(x, Norm(ShlN(q0, k)))
      half == ShlN(<<1>>, k - 1)
      odd == q0 # <<>> /\ q0[1] % 2 = 1
      q == IF f.e >= 0 THEN ShlN(x, f.e)
           ELSE IF LtN(half, r) \/ (r = half /\ odd) THEN AddN(q0, <<1>>) ELSE q0
      qr == DivMod(q, 1000000)
      body == IF f.special THEN (IF f.nan THEN Lit("nan") ELSE Lit("inf"))
              ELSE Dec(qr[1]) \o <<46>> \o ZeroPadI(qr[2], 6)
  IN (IF f.neg /\ ~(f.special /\ f.nan) THEN <<45>> ELSE <<>>) \o body
F64Text(b) == FloatText(F64(b))
F32Text(b) == FloatText(F32(b))
(* seconds since 2001-01-01 (11323 days after 1970): a date when it is one  *)
(* between the years 1 and 9999, and the number itself                      *)
CocoaText(b) ==
  LET f == F64(b)
      secs == F64Int(f)
      qr == DivMod(secs, 86400)
      d == IF f.neg THEN 11323 - Sat(qr[1]) - (IF qr[2] # 0 THEN 1 ELSE 0) ELSE 11323 + Sat(qr[1])
      t == IF f.neg /\ qr[2] # 0 THEN 86400 - qr[2] ELSE qr[2]
  IN IF f.special \/ f.e > 40 \/ d < -719162 \/ d > 2932896 THEN F64Text(b)
     ELSE DateText(d) \o <<32>> \o TimeText(t) \o <<32, 40>> \o F64Text(b) \o <<41>>

(* a stream shown as a string: non-printable bytes as \xNN                  *)
EscChar(c) == IF c < 32 \/ c >= 127 THEN <<92, 120, HexChar(c \div 16), HexChar(c % 16)>> ELSE <<c>>
StreamText(s) == FlatSeq([i \in 1..Len(s) |-> EscChar(s[i])])

(* Python's bytes literal of a byte sequence, without the leading b         *)
BytesRepr(s) ==
  LET q == IF IndexOfVal(s, 39) > 0 /\ IndexOfVal(s, 34) = 0 THEN 34 ELSE 39
      E(c) == IF c = 92 \/ c = q THEN <<92, c>>
              ELSE IF c = 9 THEN <<92, 116>> ELSE IF c = 10 THEN <<92, 110>> ELSE IF c = 13 THEN <<92, 114>>
              ELSE EscChar(c)
  IN <<q>> \o FlatSeq([i \in 1..Len(s) |-> E(s[i])]) \o <<q>>

(* text without its trailing NULs *)
RECURSIVE RStrip0(_)
RStrip0(s) == IF Len(s) > 0 /\ s[Len(s)] = 0 THEN RStrip0(SubSeq(s, 1, Len(s) - 1)) ELSE s

(* big-endian UUID text of 16 bytes; UuidLE for the mixed-endian GUID form *)
Uuid(s) == LET h(i) == <<HexChar(s[i] \div 16), HexChar(s[i] % 16)>>
               RECURSIVE Run(_, _)
               Run(a, b) == IF a > b THEN <<>> ELSE h(a) \o Run(a + 1, b)
           IN Run(1, 4) \o <<45>> \o Run(5, 6) \o <<45>> \o Run(7, 8) \o <<45>> \o Run(9, 10) \o <<45>> \o Run(11, 16)
UuidLE(s) == Uuid(<<s[4], s[3], s[2], s[1], s[6], s[5], s[8], s[7]>> \o SubSeq(s, 9, 16))

(* A labelled value line of the report *)
Ln(label, cps) == [k |-> label, v |-> cps]
(* "Reading <what> at offset ..." *)
At(what, off) == [k |-> "@" \o what, v |-> Nat2(off)]
(* a hexadecimal dump *)
Hexd(label, bytes) == [k |-> "#" \o label, v |-> bytes]

(* A fixed structure described by a table of fields                         *)
(*   [l: label, o: offset, n: size, f: format]                              *)
Render(f, raw, be) ==
  LET nat == Norm(IF be THEN Rev(raw) ELSE raw)
      full == IF be THEN Rev(raw) ELSE raw
  IN CASE f = "dec" -> Dec(nat)
       [] f = "sdec" -> DecS(TwosC(full))
       [] f = "hex2" -> Hex(nat, 2)
       [] f = "hex4" -> Hex(nat, 4)
       [] f = "hex8" -> Hex(nat, 8)
       [] f = "off" -> OffsetText(nat)
       [] f = "posix" -> PosixText(nat)
       [] f = "shex4" -> HexS(TwosC(full), 4)
       [] f = "shex8" -> HexS(TwosC(full), 8)
       [] f = "cocoa" -> CocoaText(full)
       [] f = "f64" -> F64Text(full)
       [] f = "f32" -> F32Text(full)
       [] f = "hfs" -> HfsText(nat)
       [] f = "sposix" -> PosixTextS(TwosC(full))
       [] f = "filetime" -> FiletimeText(nat)
       [] f = "micro" -> PosixMicroText(nat)
       [] f = "stream" -> StreamText(raw)
       [] f = "uuid" -> Uuid(raw)
       [] f = "guid" -> UuidLE(raw)
       [] f = "cstr" -> UpToNul(raw)
       [] f = "rstr" -> RStrip0(raw)
       [] OTHER -> raw
Field(l, o, n, f) == [l |-> l, o |-> o, n |-> n, f |-> f]
FieldEv(F, base, be, t) ==
  LET raw == Sub(F, base + t.o, t.n) IN
  IF t.f = "dump" THEN Hexd(t.l, raw) ELSE Ln(t.l, Render(t.f, raw, be))
Fields(F, base, be, table) == [i \in 1..Len(table) |-> FieldEv(F, base, be, table[i])]
RECURSIVE Joined(_)
Joined(s) == IF s = <<>> THEN <<>> ELSE IF Len(s) = 1 THEN s[1] ELSE s[1] \o <<44, 32>> \o Joined(SubSeq(s, 2, Len(s)))
(* Python's literal of a string                                              *)
ReprChar(c, quote) == IF c = quote \/ c = 92 THEN <<92, c>> ELSE IF c = 9 THEN <<92, 116>> ELSE IF c = 10 THEN <<92, 110>> ELSE IF c = 13 THEN <<92, 114>>
                      ELSE IF c < 32 \/ (c >= 127 /\ c <= 160) \/ c = 173 THEN <<92, 120, HexChar(c \div 16), HexChar(c % 16)>> ELSE <<c>>
StrRepr(s) == LET q == IF IndexOfVal(s, 39) # 0 /\ IndexOfVal(s, 34) = 0 THEN 34 ELSE 39 IN
              <<q>> \o FlatSeq([i \in 1..Len(s) |-> ReprChar(s[i], q)]) \o <<q>>
ListText(l) == <<91>> \o Joined([i \in 1..Len(l) |-> StrRepr(l[i])]) \o <<93>>
=============================================================================
