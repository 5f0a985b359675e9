------------------------------- MODULE Report -------------------------------
(* The debug report: what every printing operation of a format writes,      *)
(* character for character.  A report is the concatenation of what its      *)
(* operations write; no operation depends on the ones before it.            *)
EXTENDS Text

CONSTANT Src(_)  \* [writer : "none" | "writer" | "stdout", ops : Seq(op)]
                 \* op = [op, d, attrs]; attr = [d, f, s, b, n]

VARIABLES sc, st, ev
vars == <<sc, st, ev>>

S == Src(sc)
NL == <<10>>

-----------------------------------------------------------------------------
(* "label<tabs>: value": the value starts in the column after 9 tab stops   *)
Tabs(n) == [i \in 1..MaxOf(0, 9 - n \div 8) |-> 9]
ValueLine(d, v) == d \o Tabs(Len(d)) \o <<58, 32>> \o v \o NL
(* the writer counts a tab in the label as 8 columns                        *)
TabWidth(d) == Len(d) + 7 * Cardinality({i \in 1..Len(d) : d[i] = 9})
WriterLine(d, v) == d \o Tabs(TabWidth(d)) \o <<58, 32>> \o v \o NL

-----------------------------------------------------------------------------
(* the hexadecimal dump: 16 bytes on a line; lines equal to the line before *)
(* are replaced by one "...", but the last line is always shown             *)
Byte2(x) == <<HexChar(x \div 16), HexChar(x % 16)>>
Spaces(n) == [i \in 1..n |-> 32]
RECURSIVE HexCols(_, _)
HexCols(row, i) == IF i > Len(row) THEN <<>>
                   ELSE (IF i = 1 THEN <<>> ELSE IF i = 9 THEN <<32, 32>> ELSE <<32>>)
                        \o Byte2(row[i]) \o HexCols(row, i + 1)
(* 16 two digit columns, one space between them and two in the middle       *)
Columns(row) == LET c == HexCols(row, 1) IN c \o Spaces(48 - Len(c))
Printed(c) == IF c < 32 \/ c > 126 THEN 46 ELSE c
RowText(off, row) == <<48, 120>> \o HexRaw(Nat2(off), 8) \o <<32, 32>> \o Columns(row) \o <<32, 32>>
                     \o [i \in 1..Len(row) |-> Printed(row[i])]
Rows(data) == [i \in 1..((Len(data) + 15) \div 16) |-> Sub(data, 16 * (i - 1), 16)]
DumpLines(data) ==
  LET rows == Rows(data)
      n == Len(rows)
      Same(i) == i > 1 /\ i < n /\ rows[i] = rows[i - 1]
  IN FlatSeq([i \in 1..n |->
        IF ~Same(i) THEN <<RowText(16 * (i - 1), rows[i])>>
        ELSE IF Same(i - 1) THEN <<>> ELSE <<<<46, 46, 46>>>>])
DumpText(data) == FlatSeq([i \in 1..Len(DumpLines(data)) |-> DumpLines(data)[i] \o NL]) \o NL

(* reading a dump back: the bytes a dump stands for                         *)
RowOff(line) == Sat(DigitsNat(SubSeq(line, 3, 10), 16))
RowBytes(line) ==
  LET Col(i) == 13 + 3 * (i - 1) + (IF i > 8 THEN 1 ELSE 0)
      Has(i) == line[Col(i)] # 32
  IN [i \in 1..Cardinality({j \in 1..16 : Has(j)}) |-> Digit(line[Col(i)]) * 16 + Digit(line[Col(i) + 1])]
RECURSIVE Undump(_, _, _)
Undump(lines, i, acc) ==
  IF i > Len(lines) THEN acc
  ELSE IF lines[i] = <<46, 46, 46>>
       THEN LET n == (RowOff(lines[i + 1]) - Len(acc)) \div 16
                row == SubSeq(acc, Len(acc) - 15, Len(acc))
            IN Undump(lines, i + 1, acc \o FlatSeq([j \in 1..n |-> row]))
       ELSE Undump(lines, i + 1, acc \o RowBytes(lines[i]))

-----------------------------------------------------------------------------
(* Values.  An integer is a sign (s) and a magnitude (b, little-endian      *)
(* bytes).  Dates outside of the range of their type are shown as a number. *)
Int2(a) == <<a.s>> \o Norm(a.b)
MinPosix == <<0, 247, 145, 119, 14>>   \* 62135596800: 0001-01-01
PosixShown(a) ==
  IF a.s = 1 /\ LtN(MinPosix, Norm(a.b)) THEN HexS(Int2(a), 8) ELSE PosixTextS(Int2(a))
HfsShown(a) == IF Norm(a.b) = <<>> THEN NotSet
               ELSE IF a.s = 1 \/ Len(Norm(a.b)) > 4 THEN HexS(Int2(a), 8) ELSE HfsText(a.b)
FiletimeShown(a) == IF Norm(a.b) = <<>> THEN NotSet
                    ELSE IF a.s = 1 \/ Len(Norm(a.b)) > 8 THEN HexS(Int2(a), 8) ELSE FiletimeText(a.b)
RECURSIVE JoinWith(_, _)
JoinWith(ss, sep) == IF Len(ss) = 0 THEN <<>> ELSE IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o sep \o JoinWith(Tail(ss), sep)
Comma == <<44, 32>>

Shown(a) ==
  CASE a.f = "decimal" -> DecS(Int2(a))
    [] a.f = "hex2" -> HexS(Int2(a), 2)
    [] a.f = "hex4" -> HexS(Int2(a), 4)
    [] a.f = "hex8" -> HexS(Int2(a), 8)
    [] a.f = "offset" -> DecS(Int2(a)) \o <<32, 40>> \o HexS(Int2(a), 8) \o <<41>>
    [] a.f = "float" -> F64Text(a.b)
    [] a.f = "string" -> RStrip0(a.b)
    [] a.f = "plain" -> a.b
    [] a.f = "uuid" -> Uuid(a.b)
    [] a.f = "filetime" -> FiletimeShown(a)
    [] a.f = "posix" -> PosixShown(a)
    [] a.f = "hfs" -> HfsShown(a)
    [] a.f = "micro" -> PosixMicroText(a.b)
    [] a.f = "nano" -> PosixNanoText(a.b)
    [] a.f = "stream" -> StreamText(a.b)
    [] a.f = "decimals" -> JoinWith([i \in 1..Len(a.b) |-> DecI(a.b[i])], Comma)
    [] a.f = "offsets" -> JoinWith([i \in 1..Len(a.b) |-> OffsetText(Nat2(a.b[i]))], Comma)
    [] a.f = "ipv4" -> IF Len(a.b) = 4 THEN JoinWith([i \in 1..4 |-> DecI(a.b[i])], <<46>>) ELSE NoneText
    [] a.f = "ipv6" -> IF Len(a.b) = 16
                       THEN JoinWith([i \in 1..8 |-> Byte2(a.b[2 * i - 1]) \o Byte2(a.b[2 * i])], <<58>>) ELSE NoneText
    [] a.f = "data" -> DumpText(a.b)

(* one attribute of a structure: an absent one is left out; text of more    *)
(* than one line starts on the line after its label                         *)
HasNL(t) == IndexOfVal(t, 10) > 0
AttrText(a) ==
  IF a.s = 2 THEN <<>>
  ELSE LET t == Shown(a) IN
       IF HasNL(t) THEN a.d \o <<58>> \o NL \o t ELSE ValueLine(a.d, t)
(* a structure ends with an empty line *)
EndsBlank(t) == Len(t) > 1 /\ t[Len(t)] = 10 /\ t[Len(t) - 1] = 10
StructText(attrs) ==
  LET t == FlatSeq([i \in 1..Len(attrs) |-> AttrText(attrs[i])]) IN
  IF EndsBlank(t) THEN t ELSE t \o NL

OpText(o) ==
  CASE o.op = "value" -> ValueLine(o.attrs[1].d, Shown(o.attrs[1]))
    [] o.op = "data" -> o.attrs[1].d \o <<58>> \o NL \o DumpText(o.attrs[1].b)
    [] o.op = "text" -> o.attrs[1].b
    [] o.op = "struct" -> StructText(o.attrs)
    [] o.op = "write" -> WriterLine(o.attrs[1].d, Shown(o.attrs[1]))

(* without a writer nothing is printed *)
Written(o) == IF S.writer = "none" THEN <<>> ELSE OpText(o)

-----------------------------------------------------------------------------
InitSt == st = [pc |-> "run", i |-> 1] /\ ev = <<>>
Do(o) == /\ ev' = <<[k |-> o.op, v |-> Written(o)]>>
         /\ st' = [st EXCEPT !.i = @ + 1]
         /\ UNCHANGED sc
Next == \/ st.pc = "run" /\ st.i <= Len(S.ops) /\ Do(S.ops[st.i])
        \/ st.pc = "run" /\ st.i > Len(S.ops) /\ st' = [st EXCEPT !.pc = "done"] /\ ev' = <<>> /\ UNCHANGED sc
Done == st.pc = "done"
Outcomes == {"ok"}

-----------------------------------------------------------------------------
(* the dump loses nothing: it reads back as the bytes it was made of        *)
DumpFaithful == \A i \in 1..Len(S.ops) :
                  S.ops[i].op = "data" => Undump(DumpLines(S.ops[i].attrs[1].b), 1, <<>>) = S.ops[i].attrs[1].b
(* every line of a report that carries a value names it first               *)
Labelled == \A i \in 1..Len(S.ops) :
              S.ops[i].op \in {"value", "data", "write"} => StartsWith(OpText(S.ops[i]), S.ops[i].attrs[1].d)
(* what is written ends its line, so the next operation starts a new one    *)
EndsLine == ev # <<>> /\ ev[1].k # "text" /\ ev[1].v # <<>> => ev[1].v[Len(ev[1].v)] = 10
=============================================================================
