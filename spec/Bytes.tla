------------------------------- MODULE Bytes -------------------------------
(* Byte-level vocabulary shared by every format specification.             *)
(*                                                                         *)
(* A file is a sequence of bytes 0..255; offsets are 0-based as in the     *)
(* implementation.  Natural numbers that may not fit TLC's 32-bit integers *)
(* are "nats": little-endian byte sequences without trailing zeros (0 is   *)
(* <<>>).  Offsets and sizes used for navigation are converted with Sat,   *)
(* which saturates at BIG (larger than any file that is explored).         *)
EXTENDS Integers, Sequences, FiniteSets, TLC

BIG == 1073741823

MinOf(a, b) == IF a < b THEN a ELSE b
MaxOf(a, b) == IF a > b THEN a ELSE b

(* At most n bytes of s starting at 0-based offset off (clipped to s).     *)
Sub(s, off, n) ==
  IF off >= Len(s) \/ n <= 0 THEN <<>>
  ELSE SubSeq(s, off + 1, IF n > Len(s) - off THEN Len(s) ELSE off + n)

Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]

(* TRUE when n bytes are available at off.                                 *)
Fits(s, off, n) == off >= 0 /\ n >= 0 /\ off <= Len(s) /\ n <= Len(s) - off

RECURSIVE Norm(_)
Norm(b) == IF Len(b) > 0 /\ b[Len(b)] = 0 THEN Norm(SubSeq(b, 1, Len(b) - 1)) ELSE b

LE(s, off, n) == Norm(Sub(s, off, n))
BE(s, off, n) == Norm(Rev(Sub(s, off, n)))

(* Saturating conversion of a nat to a TLC integer.                        *)
Sat(b) ==
  LET c == Norm(b) IN
  CASE Len(c) = 0 -> 0
    [] Len(c) = 1 -> c[1]
    [] Len(c) = 2 -> c[1] + 256 * c[2]
    [] Len(c) = 3 -> c[1] + 256 * c[2] + 65536 * c[3]
    [] Len(c) = 4 -> IF c[4] >= 63 THEN BIG
                     ELSE c[1] + 256 * c[2] + 65536 * c[3] + 16777216 * c[4]
    [] OTHER -> BIG

LEi(s, off, n) == Sat(Sub(s, off, n))
BEi(s, off, n) == Sat(Rev(Sub(s, off, n)))

(* TLC natural -> nat                                                      *)
RECURSIVE Nat2(_)
Nat2(i) == IF i = 0 THEN <<>> ELSE <<i % 256>> \o Nat2(i \div 256)

RECURSIVE MulAdd(_, _, _)
(* b * m + a for a nat b and small m, a.                                   *)
MulAdd(b, m, a) ==
  IF Len(b) = 0 THEN Nat2(a)
  ELSE LET v == b[1] * m + a IN
       Norm(<<v % 256>> \o MulAdd(Tail(b), m, v \div 256))

Digit(c) == CASE c >= 48 /\ c <= 57 -> c - 48
              [] c >= 97 /\ c <= 102 -> c - 87
              [] c >= 65 /\ c <= 70 -> c - 55
              [] OTHER -> 99

AllDigits(s, base) == Len(s) > 0 /\ \A i \in 1..Len(s) : Digit(s[i]) < base

RECURSIVE DigitsAcc(_, _, _)
DigitsAcc(s, base, acc) ==
  IF Len(s) = 0 THEN acc ELSE DigitsAcc(Tail(s), base, MulAdd(acc, base, Digit(s[1])))
(* value of an ASCII digit string as a nat                                 *)
DigitsNat(s, base) == DigitsAcc(s, base, <<>>)

RECURSIVE AddC(_, _, _)
AddC(a, b, c) ==
  IF Len(a) = 0 /\ Len(b) = 0 THEN (IF c = 0 THEN <<>> ELSE <<c>>)
  ELSE LET v == (IF Len(a) > 0 THEN a[1] ELSE 0) + (IF Len(b) > 0 THEN b[1] ELSE 0) + c IN
       <<v % 256>> \o AddC(IF Len(a) > 0 THEN Tail(a) ELSE a, IF Len(b) > 0 THEN Tail(b) ELSE b, v \div 256)
AddN(a, b) == Norm(AddC(a, b, 0))

RECURSIVE SubC(_, _, _)
SubC(a, b, c) ==
  IF Len(a) = 0 THEN <<>>
  ELSE LET v == a[1] - (IF Len(b) > 0 THEN b[1] ELSE 0) - c IN
       <<IF v < 0 THEN v + 256 ELSE v>>
         \o SubC(Tail(a), IF Len(b) > 0 THEN Tail(b) ELSE b, IF v < 0 THEN 1 ELSE 0)
(* a - b for a >= b                                                        *)
SubN(a, b) == Norm(SubC(a, b, 0))

RECURSIVE LtTop(_, _)
LtTop(a, b) ==   \* same length, compare from the most significant byte
  IF Len(a) = 0 THEN FALSE
  ELSE IF a[Len(a)] # b[Len(b)] THEN a[Len(a)] < b[Len(b)]
  ELSE LtTop(SubSeq(a, 1, Len(a) - 1), SubSeq(b, 1, Len(b) - 1))
LtN(a, b) == IF Len(a) # Len(b) THEN Len(a) < Len(b) ELSE LtTop(a, b)
LeN(a, b) == ~LtN(b, a)

RECURSIVE MulN(_, _)
MulN(a, b) == IF Len(b) = 0 THEN <<>>
              ELSE AddN(MulAdd(a, b[1], 0), LET h == MulN(a, Tail(b)) IN IF h = <<>> THEN h ELSE <<0>> \o h)

(* long division of a nat by a small positive integer: <<quotient, rem>>   *)
RECURSIVE DivAcc(_, _, _, _)
DivAcc(a, m, rem, acc) ==   \* a consumed from the most significant end
  IF Len(a) = 0 THEN <<Norm(acc), rem>>
  ELSE LET v == rem * 256 + a[Len(a)] IN
       DivAcc(SubSeq(a, 1, Len(a) - 1), m, v % m, <<v \div m>> \o acc)
DivMod(a, m) == DivAcc(a, m, 0, <<>>)

(* Signed values are <<sign>> \o magnitude, with sign 0 or 1 (negative).   *)
TwosC(b) ==   \* b: full-width little-endian bytes
  IF Len(b) > 0 /\ b[Len(b)] >= 128
  THEN <<1>> \o AddN(Norm([i \in 1..Len(b) |-> 255 - b[i]]), <<1>>)
  ELSE <<0>> \o Norm(b)

(* index (1-based) of the first x in s, or 0 *)
RECURSIVE IdxFrom(_, _, _)
IdxFrom(s, x, i) == IF i > Len(s) THEN 0 ELSE IF s[i] = x THEN i ELSE IdxFrom(s, x, i + 1)
IndexOfVal(s, x) == IdxFrom(s, x, 1)

(* the prefix of s before the first NUL *)
UpToNul(s) == LET i == IndexOfVal(s, 0) IN IF i = 0 THEN s ELSE SubSeq(s, 1, i - 1)

Zeros(n) == [i \in 1..n |-> 0]
AllZero(s) == \A i \in 1..Len(s) : s[i] = 0

StartsWith(s, p) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p

RECURSIVE FlatSeq(_)
FlatSeq(ss) == IF Len(ss) = 0 THEN <<>> ELSE Head(ss) \o FlatSeq(Tail(ss))

Pad(n, m) == (m - (n % m)) % m

(* UTF-8 decoding: <<ok, code points>>                                     *)
RECURSIVE Utf8Acc(_, _, _)
Utf8Acc(s, i, acc) ==
  IF i > Len(s) THEN <<TRUE, acc>>
  ELSE LET a == s[i]
           C(k) == i + k <= Len(s) /\ s[i + k] >= 128 /\ s[i + k] <= 191
           x(k) == s[i + k] - 128
       IN
       CASE a < 128 -> Utf8Acc(s, i + 1, Append(acc, a))
         [] a >= 194 /\ a <= 223 /\ C(1) ->
              Utf8Acc(s, i + 2, Append(acc, (a - 192) * 64 + x(1)))
         [] a >= 224 /\ a <= 239 /\ C(1) /\ C(2)
              /\ (a # 224 \/ s[i + 1] >= 160) /\ (a # 237 \/ s[i + 1] <= 159) ->
              Utf8Acc(s, i + 3, Append(acc, (a - 224) * 4096 + x(1) * 64 + x(2)))
         [] a >= 240 /\ a <= 244 /\ C(1) /\ C(2) /\ C(3)
              /\ (a # 240 \/ s[i + 1] >= 144) /\ (a # 244 \/ s[i + 1] <= 143) ->
              Utf8Acc(s, i + 4, Append(acc, (a - 240) * 262144 + x(1) * 4096 + x(2) * 64 + x(3)))
         [] OTHER -> <<FALSE, acc>>
Utf8(s) == Utf8Acc(s, 1, <<>>)

(* UTF-16 little-endian decoding: <<ok, code points>>                      *)
RECURSIVE Utf16Acc(_, _, _)
Utf16Acc(s, i, acc) ==
  IF i > Len(s) THEN <<TRUE, acc>>
  ELSE IF i + 1 > Len(s) THEN <<FALSE, acc>>
  ELSE LET u == s[i] + 256 * s[i + 1] IN
       IF u < 55296 \/ u > 57343 THEN Utf16Acc(s, i + 2, Append(acc, u))
       ELSE IF u >= 56320 \/ i + 3 > Len(s) THEN <<FALSE, acc>>
       ELSE LET v == s[i + 2] + 256 * s[i + 3] IN
            IF v < 56320 \/ v > 57343 THEN <<FALSE, acc>>
            ELSE Utf16Acc(s, i + 4, Append(acc, 65536 + (u - 55296) * 1024 + (v - 56320)))
Utf16(s) == Utf16Acc(s, 1, <<>>)

(* number of bytes before the first aligned UTF-16 NUL, or -1 *)
RECURSIVE Utf16NulFrom(_, _)
Utf16NulFrom(s, i) == IF i + 1 > Len(s) THEN -1
                      ELSE IF s[i] = 0 /\ s[i + 1] = 0 THEN i - 1
                      ELSE Utf16NulFrom(s, i + 2)
Utf16Nul(s) == Utf16NulFrom(s, 1)

IsAscii(s) == \A i \in 1..Len(s) : s[i] < 128

(* little/big endian encodings of a TLC integer on n bytes *)
EncLE(v, n) == LET RECURSIVE E(_, _)
                   E(x, k) == IF k = 0 THEN <<>> ELSE <<x % 256>> \o E(x \div 256, k - 1)
               IN E(v, n)
EncBE(v, n) == Rev(EncLE(v, n))

(* a variable size integer at off, below end: 7 bits per byte, the last one *)
(* without the top bit.  n = 0 if there is none.                            *)
RECURSIVE VarLen(_, _, _)
VarLen(s, i, end) == IF i >= end THEN 0 ELSE IF s[i + 1] < 128 THEN 1 ELSE LET r == VarLen(s, i + 1, end) IN IF r = 0 THEN 0 ELSE r + 1
RECURSIVE VarVal(_, _, _)
VarVal(s, i, n) == IF n = 0 THEN <<>> ELSE MulAdd(VarVal(s, i + 1, n - 1), 128, s[i + 1] % 128)
VarInt(s, off, end) == LET n == VarLen(s, off, end) IN [n |-> n, v |-> Norm(VarVal(s, off, n))]

HexChar(d) == IF d < 10 THEN 48 + d ELSE 87 + d
RECURSIVE EncBase(_, _, _)
EncBase(v, base, n) == IF n = 0 THEN <<>> ELSE Append(EncBase(v \div base, base, n - 1), HexChar(v % base))
=============================================================================
