------------------------------ MODULE ReportMC ------------------------------
EXTENDS Report, Json
CONSTANTS MaxRows, Sizes

MCSrc(x) == x.src
A(d, f, s, b) == [d |-> d, f |-> f, s |-> s, b |-> b]
Label(n) == [i \in 1..n |-> 97 + (i % 26)]
(* rows of two kinds, so that every pattern of repeated rows occurs; the    *)
(* last row is partial                                                      *)
Row(k) == [i \in 1..16 |-> IF k = 0 THEN 0 ELSE IF k = 1 THEN 60 + i ELSE 16 * k + i]
Datas == {FlatSeq([i \in 1..Len(p) |-> Row(p[i])]) \o SubSeq(Row(t), 1, n) :
            p \in UNION {[1..m -> {0, 1}] : m \in 0..MaxRows}, t \in {0, 1}, n \in Sizes}
Ints == {A(Label(5), f, s, b) : f \in {"decimal", "hex2", "hex4", "hex8", "offset", "posix", "hfs", "filetime"},
            s \in {0, 1}, b \in {<<1>>, <<255>>, <<0, 1>>, <<0, 0, 1>>, <<255, 255, 255, 255>>, <<0, 0, 0, 0, 1>>,
                                 <<0, 247, 145, 119, 14>>, <<1, 247, 145, 119, 14>>, <<127, 65, 244, 255, 58>>,
                                 <<128, 65, 244, 255, 58>>, <<255, 255, 255, 255, 255, 255, 255, 127>>}}
        \cup {A(Label(5), f, 0, <<>>) : f \in {"decimal", "hex2", "hex4", "hex8", "offset", "posix", "hfs", "filetime", "micro", "nano"}}
        \cup {A(Label(5), f, 0, b) : f \in {"micro", "nano"}, b \in {<<1>>, <<0, 0, 0, 0, 1>>, <<255, 255, 255, 255, 255, 255, 255, 127>>}}
Texts == {A(Label(n), "plain", 0, t) : n \in {0, 1, 7, 8, 15, 16, 63, 64, 71, 72, 80}, t \in {<<>>, <<65>>}}
Strings == {A(Label(3), "string", 0, t) : t \in {<<>>, <<0>>, <<65, 0, 0>>, <<0, 65>>, <<65, 10, 66>>, <<65, 10>>, <<10, 10>>, <<233>>}}
Lists == {A(Label(3), f, 0, b) : f \in {"decimals", "offsets", "ipv4", "ipv6"},
            b \in {<<>>, <<7>>, <<1, 20, 255>>, <<1, 2, 3, 4>>, [i \in 1..15 |-> i], [i \in 1..16 |-> 17 * i % 256]}}
Streams == {A(Label(3), "stream", 0, <<a, b>>) : a \in {0, 31, 32, 65}, b \in {92, 126, 127, 128, 255}}
Dumps == {A(Label(4), "data", 0, SubSeq(Row(1), 1, n)) : n \in {0, 1, 16}}
Gone == {A(Label(4), "decimal", 2, <<>>)}
Pool == {A(Label(3), "string", 0, <<65>>), A(Label(3), "string", 0, <<65, 10, 66>>), A(Label(3), "string", 0, <<10, 10>>)}
        \cup Dumps \cup Gone
Ops == {[op |-> "data", attrs |-> <<A(Label(4), "data", 0, x)>>] : x \in Datas}
       \cup {[op |-> o, attrs |-> <<a>>] : o \in {"value", "write", "struct"}, a \in Texts}
       \cup {[op |-> "struct", attrs |-> <<a>>] : a \in Ints \cup Strings \cup Lists \cup Streams}
       \cup {[op |-> "struct", attrs |-> <<a, b>>] : a \in Pool, b \in Pool}
       \cup {[op |-> "struct", attrs |-> <<>>]}
       \cup {[op |-> "write", attrs |-> <<A(<<9>> \o Label(n), "plain", 0, <<65>>)>>] : n \in {0, 7, 8}}
       \cup {[op |-> "text", attrs |-> <<A(<<>>, "plain", 0, t)>>] : t \in {<<>>, <<65>>, <<65, 10>>}}
MCInit == /\ \E o \in Ops, w \in {"none", "writer", "stdout"} :
               (w = "none" => o.op # "write") /\ sc = [src |-> [writer |-> w, ops |-> <<o>>]]
          /\ InitSt
MCSpec == MCInit /\ [][Next]_vars /\ WF_vars(Next)
Terminates == <>Done
MCDump == (st.i = 1 /\ st.pc = "run") => PrintT("SCEN " \o ToJson(sc.src))
=============================================================================
