------------------------------ MODULE ChromeMC -------------------------------
(* A directory with an index of two addresses and a data block file with    *)
(* two entries that are chained in every way, including cycles.             *)
EXTENDS Chrome, Json
CONSTANTS Heads, Nexts, Shapes
MCSrc(x) == x.src
MCKind(x) == "dir"
MCOps(x) == <<>>
MCHdr(x) == 88   \* instead of 8192, to keep the states small

(* address names: entry 0, entry 1 of data_1, a block beyond the file, ...  *)
A(n) == CASE n = "nil" -> <<0, 0, 0, 0>> [] n = "e0" -> <<0, 0, 1, 160>> [] n = "e1" -> <<1, 0, 1, 162>> [] n = "far" -> <<9, 0, 1, 160>>
          [] n = "file" -> <<18, 0, 0, 128>> [] n = "other" -> <<0, 0, 2, 160>> [] n = "odd" -> <<1, 2, 3, 208>>
Index(s) == <<195, 202, 3, 193>> \o (IF s.shape = "version" THEN <<2, 0>> ELSE <<1, 0>>) \o <<2, 0>> \o Zeros(32)
            \o <<60, 64, 110, 60, 149, 21, 46, 0>> \o Zeros(208) \o Zeros(IF s.shape = "shortlru" THEN 100 ELSE 112)
            \o (IF s.shape = "shortlru" THEN <<>> ELSE <<0, 0, 0, 0>> \o A(s.h1) \o A(s.h2) \o (IF s.shape = "partial" THEN <<1, 2>> ELSE <<>>))
Entry1(next, i) == <<i, 1, 2, 3>> \o A(next) \o Zeros(16) \o <<60, 64, 110, 60, 149, 21, 46 + i, 0>> \o Zeros(64) \o <<104, 116, 48 + i>> \o Zeros(157)
Data1(s) == <<195, 202, 4, 193, 0, 0, 2, 0, 1, 0, 0, 0, 0, 1, 0, 0>> \o Zeros(64) \o <<3>> \o Zeros(7) \o Entry1(s.n0, 0) \o Entry1(s.n1, 1)
MkSrc(s) == <<[name |-> INDEX, data |-> Index(s)]>> \o (IF s.shape = "nodata" THEN <<>> ELSE <<[name |-> Lit("data_1"), data |-> Data1(s)]>>)
Scen == [h1 : Heads, h2 : Heads, n0 : Nexts, n1 : Nexts, shape : Shapes]
MCInit == (\E s \in Scen : sc = [s |-> s, src |-> MkSrc(s)]) /\ InitSt
MCSpec == MCInit /\ [][Next]_vars /\ WF_vars(Next)
Terminates == <>Done
MCDump == Done => PrintT("SCEN " \o ToJson([src |-> Files]))
=============================================================================
