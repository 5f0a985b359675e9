----------------------------- MODULE JournalMC ------------------------------
(* Every chain of up to MaxArrays entry arrays (all next pointers, cycles   *)
(* included), each array listing any of: no object, either entry, a data    *)
(* object (wrong type), an offset outside of the file.                      *)
EXTENDS Journal, Json
CONSTANTS MaxArrays, PerArray
MCSrc(x) == x.src
D(i) == 208 + 68 * (i - 1)                  \* two data objects
E(i) == 208 + 136 + IF i = 1 THEN 0 ELSE 80 \* entry 1 has one item, entry 2 two
ALEN == 24 + 8 * PerArray
Arr(i) == 208 + 136 + 80 + 96 + ALEN * (i - 1)
Obj(t, n, rest) == <<t, 0, 0, 0, 0, 0, 0, 0>> \o EncLE(n, 8) \o rest
DataObj(i) == Obj(1, 68, EncLE(i, 8) \o Zeros(40) \o <<65, 61, 48 + i, 10>>)
EntryObj(i, items) == Obj(3, 64 + 16 * Len(items), EncLE(i, 8) \o EncLE(1000000 * i, 8) \o EncLE(i, 8) \o Zeros(16) \o EncLE(7, 8)
                       \o FlatSeq([j \in 1..Len(items) |-> EncLE(items[j], 8) \o EncLE(j, 8)]))
Picks == {0, E(1), E(2), D(1), 100000}
Nexts(n) == {0, 100000} \cup {Arr(i) : i \in 1..n}
Scen == UNION {[n : {n}, next : [1..n -> Nexts(n)], picks : [1..PerArray -> Picks], hs : {208, 240, 250}] : n \in 1..MaxArrays}
MkSrc(s) == SIG \o Zeros(80) \o EncLE(s.hs, 8) \o Zeros(80) \o EncLE(Arr(1), 8) \o Zeros(24)
            \o DataObj(1) \o DataObj(2) \o EntryObj(1, <<D(1)>>) \o EntryObj(2, <<D(2), D(1)>>)
            \o FlatSeq([i \in 1..s.n |-> Obj(6, ALEN, EncLE(s.next[i], 8)
                 \o FlatSeq([j \in 1..PerArray |-> EncLE(IF i = 1 THEN s.picks[j] ELSE E(2), 8)]))])
MCInit == (\E s \in Scen : sc = [s |-> s, src |-> MkSrc(s)]) /\ InitSt
MCSpec == MCInit /\ [][Next]_vars /\ WF_vars(Next)
Terminates == <>Done
MCDump == Done => PrintT("SCEN " \o ToJson([src |-> F]))
=============================================================================
