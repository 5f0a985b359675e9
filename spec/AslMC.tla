------------------------------- MODULE AslMC --------------------------------
(* Every chain of up to MaxRecords records: the offset each record points   *)
(* to is any record, the header's end or past the end (so every cycle and   *)
(* every order), with every kind of string reference.                       *)
EXTENDS Asl, Json
CONSTANTS MaxRecords, Refs
MCSrc(x) == x.src

(* record i (with one extra field and a footer) lies at Off(i); one shared  *)
(* string "hi" lies at 80, right after the header.                          *)
RLEN == RSIZE + 16 + 8
Off(i) == 88 + (i - 1) * RLEN
STR == <<0, 1>> \o EncBE(2, 4) \o <<104, 105>>
Ref(r) == CASE r = "none" -> Zeros(8)
            [] r = "inline" -> <<131, 97, 98, 99, 0, 0, 0, 0>>
            [] r = "empty" -> <<128, 0, 0, 0, 0, 0, 0, 0>>
            [] r = "ref" -> EncBE(80, 8)
            [] r = "bad" -> <<145, 97, 0, 0, 0, 0, 0, 0>>
            [] OTHER -> EncBE(100000, 8)
Targets(n) == {0, 100000} \cup {Off(i) : i \in 1..n}
Enc(i, next, r1, r2) ==
  <<0, 0>> \o EncBE(RLEN - 6, 4) \o EncBE(next, 8) \o EncBE(i, 8) \o EncBE(1000000 * i, 8) \o EncBE(7, 4)
   \o EncBE(3, 2) \o EncBE(0, 2) \o EncBE(50 + i, 4) \o <<255, 255, 255, 254>> \o EncBE(20, 4) \o <<255, 255, 255, 255>>
   \o EncBE(80, 4) \o EncBE(0, 8) \o Ref("inline") \o Ref(r1) \o Ref("none") \o Ref(r2)
   \o Ref("inline") \o Ref(r1) \o EncBE(0, 8)
Scen == UNION {[n : {n}, first : Targets(n), next : [1..n -> Targets(n)], r1 : Refs, r2 : Refs] : n \in 1..MaxRecords}
MkSrc(s) == SIG \o EncBE(2, 4) \o EncBE(s.first, 8) \o EncBE(99999, 8) \o EncBE(256, 4) \o EncBE(0, 8) \o Zeros(36)
            \o STR \o FlatSeq([i \in 1..s.n |-> Enc(i, s.next[i], s.r1, s.r2)])
MCInit == (\E s \in Scen : sc = [s |-> s, src |-> MkSrc(s)]) /\ InitSt
MCSpec == MCInit /\ [][Next]_vars /\ WF_vars(Next)
Terminates == <>Done
MCDump == Done => PrintT("SCEN " \o ToJson([src |-> F]))
=============================================================================
