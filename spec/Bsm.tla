--------------------------------- MODULE Bsm ---------------------------------
(* Basic Security Module (BSM) event auditing file: event records, each a    *)
(* header token, tokens and a trailer token.                                *)
EXTENDS Text, BsmEvents
CONSTANT Src(_)
VARIABLES sc, st, ev
vars == <<sc, st, ev>>
F == Src(sc)

InitSt == st = [pc |-> "record", o |-> 0, start |-> 0, size |-> 0] /\ ev = <<>>
Fail == st' = [st EXCEPT !.pc = "fail"] /\ ev' = <<>>

EventText(b) == LET v == Sat(b)
                    hits == {i \in 1..Len(EVENT_NAMES) : EVENT_NAMES[i][1] = v}
                IN Hex(b, 4) \o <<32, 40>> \o (IF hits = {} THEN Lit("UNKNOWN") ELSE Lit(EVENT_NAMES[CHOOSE i \in hits : TRUE][2])) \o <<41>>
Ipv4(s) == DecI(s[1]) \o <<46>> \o DecI(s[2]) \o <<46>> \o DecI(s[3]) \o <<46>> \o DecI(s[4])
Ipv6(s) == LET g(i) == HexRaw(Norm(<<s[2 * i], s[2 * i - 1]>>), 4) IN
           FlatSeq([i \in 1..8 |-> IF i = 1 THEN g(i) ELSE <<58>> \o g(i)])
IpText(s) == IF Len(s) = 4 THEN Ipv4(s) ELSE Ipv6(s)

(* A member of a token: label ("" when it is not reported), size and format; *)
(* the size 0 is that of the preceding number ("str", "blob", "groups"), of  *)
(* the net type ("ip") or up to a NUL ("cstring", "cstrings")               *)
M(l, n, f) == [l |-> l, n |-> n, f |-> f]
TT == M("Token type", 1, "hex2")
HEAD == <<TT, M("Record size", 4, "dec"), M("Format version", 1, "dec"), M("Event type", 2, "event"), M("Modifier", 2, "hex4")>>
NET == M("Net type", 4, "net")
IP == M("IP address", 0, "ip")
IP4 == M("IP address", 4, "ip4")
TIME4 == <<M("Timestamp", 4, "posix"), M("Microseconds", 4, "dec")>>
TIME8 == <<M("Timestamp", 8, "posix"), M("Microseconds", 8, "dec")>>
SUBJECT == <<TT, M("Audit user identifier", 4, "sdec"), M("Effective user identifier", 4, "sdec"), M("Effective group identifier", 4, "sdec"),
             M("Real user identifier", 4, "sdec"), M("Real group identifier", 4, "sdec"), M("Process identifier (PID)", 4, "dec"), M("Session identifier", 4, "dec")>>
ATTR == <<TT, M("Unknown1", 2, "hex4"), M("File mode", 2, "hex4"), M("User identifier (UID)", 4, "sdec"), M("Group identifier (GID)", 4, "sdec"),
          M("File system identifier", 4, "hex8"), M("File identifier", 8, "hex8")>>
T(d, ms) == [d |-> d, ms |-> ms]
TOKEN ==
  [t \in 0..255 |->
   CASE t = 17 -> T("other_file32", <<TT>> \o TIME4 \o <<M("Name size", 2, "dec"), M("Name", 0, "str")>>)
     [] t = 19 -> T("trailer", <<TT, M("Signature", 2, "signature"), M("Record size", 4, "dec")>>)
     [] t = 20 -> T("header32", HEAD \o TIME4)
     [] t = 21 -> T("header32_ex", HEAD \o <<NET, IP>> \o TIME4)
     [] t = 33 -> T("data", <<TT, M("Data format", 1, "hex2"), M("Element data type", 1, "hex2"), M("Number of elements", 1, "dec"), M("Data", 0, "blob")>>)
     [] t = 34 -> T("ipc", <<TT, M("Object type", 1, "hex2"), M("Object identifier", 4, "hex8")>>)
     [] t = 35 -> T("path", <<TT, M("Path size", 2, "dec"), M("Path", 0, "str")>>)
     [] t = 36 -> T("subject32", SUBJECT \o <<M("Terminal port", 4, "dec"), IP4>>)
     [] t = 38 -> T("process32", SUBJECT \o <<M("Terminal port", 4, "dec"), IP4>>)
     [] t = 39 -> T("return32", <<TT, M("Status", 1, "hex8"), M("Return value", 4, "hex8")>>)
     [] t = 40 -> T("text", <<TT, M("Text size", 2, "dec"), M("Text", 0, "str")>>)
     [] t = 41 -> T("opaque", <<TT, M("Data size", 2, "dec"), M("Data", 0, "blob")>>)
     [] t = 42 -> T("in_addr", <<TT, IP4>>)
     [] t = 43 -> T("ip", <<TT, M("", 12, "dec"), M("Source IP address", 4, "ip4"), M("Destination IP address", 4, "ip4")>>)
     [] t = 44 -> T("iport", <<TT, M("Port number", 2, "dec")>>)
     [] t = 45 -> T("arg32", <<TT, M("Argument index", 1, "dec"), M("Argument name", 4, "hex8"), M("Argument value size", 2, "dec"), M("Argument value", 0, "str")>>)
     [] t = 47 -> T("seq", <<TT, M("Sequence number", 4, "dec")>>)
     [] t = 50 -> T("ipc_perm", <<M("", 29, "dec")>>)
     [] t = 52 -> T("groups", <<M("", 1, "dec"), M("", 4, "dec"), M("", 0, "groups")>>)
     [] t = 59 -> T("newgroups", <<M("", 1, "dec"), M("", 4, "dec"), M("", 0, "groups")>>)
     [] t = 60 -> T("exec_args", <<M("", 1, "dec"), M("", 4, "dec"), M("", 0, "cstrings")>>)
     [] t = 61 -> T("exec_env", <<M("", 1, "dec"), M("", 4, "dec"), M("", 0, "cstrings")>>)
     [] t = 62 -> T("attr32", ATTR \o <<M("Device", 4, "hex8")>>)
     [] t = 82 -> T("exit", <<TT, M("Status", 4, "hex8"), M("Return value", 4, "hex8")>>)
     [] t = 96 -> T("zonename", <<TT, M("Name size", 2, "dec"), M("Name", 0, "str")>>)
     [] t = 113 -> T("arg64", <<TT, M("Argument index", 1, "dec"), M("Argument name", 8, "hex8"), M("Argument value size", 2, "dec"), M("Argument value", 0, "str")>>)
     [] t = 114 -> T("return64", <<TT, M("Status", 1, "hex8"), M("Return value", 8, "hex8")>>)
     [] t = 115 -> T("attr64", ATTR \o <<M("Device", 8, "hex8")>>)
     [] t = 116 -> T("header64", HEAD \o TIME8)
     [] t = 117 -> T("subject64", SUBJECT \o <<M("Terminal port", 8, "dec"), IP4>>)
     [] t = 119 -> T("process64", SUBJECT \o <<M("Terminal port", 8, "dec"), IP4>>)
     [] t = 121 -> T("header64_ex", HEAD \o <<NET, IP>> \o TIME8)
     [] t = 122 -> T("subject32_ex", SUBJECT \o <<M("Terminal port", 4, "dec"), NET, IP>>)
     [] t = 123 -> T("process32_ex", SUBJECT \o <<M("Terminal port", 4, "dec"), NET, IP>>)
     [] t = 124 -> T("subject64_ex", SUBJECT \o <<M("Terminal port", 8, "dec"), NET, IP>>)
     [] t = 125 -> T("process64_ex", SUBJECT \o <<M("Terminal port", 8, "dec"), NET, IP>>)
     [] t = 126 -> T("in_addr_ex", <<TT, NET, M("IP address", 16, "ip6")>>)
     [] t = 127 -> T("socket_ex", <<TT, M("Socket domain", 2, "hex4"), M("Socket type", 2, "hex4"), M("Net type", 2, "net"), M("Local port", 2, "dec"),
                                    M("Local IP address", 0, "ip"), M("Remote port", 2, "dec"), M("Remote IP address", 0, "ip")>>)
     [] t = 128 -> T("sockinet32", <<TT, M("Socket family", 2, "hex4"), M("Local port", 2, "dec"), M("Local IP address", 4, "ip4")>>)
     [] t = 129 -> T("sockinet64", <<TT, M("Socket family", 2, "hex4"), M("Local port", 2, "dec"), M("Local IP address", 16, "ip6")>>)
     [] t = 130 -> T("sockunix", <<TT, M("Socket family", 2, "hex4"), M("Socket path", 0, "cstring")>>)
     [] OTHER -> T("", <<>>)]
(* tokens of which the report has the data only (or as well)                *)
RAW == {43, 50, 52, 59, 60, 61}

(* the end of k NUL-terminated strings at o; -1 if there are not as many    *)
RECURSIVE Cstrings(_, _)
Cstrings(o, k) == IF k = 0 THEN o
                  ELSE LET z == {j \in o + 1..Len(F) : F[j] = 0} IN
                       IF z = {} THEN -1
                       ELSE LET e == CHOOSE j \in z : \A i \in z : j <= i IN
                            IF ~IsAscii(Sub(F, o, e - 1 - o)) THEN -1 ELSE Cstrings(e, k - 1)
Bad == [ok |-> FALSE, end |-> 0, e |-> <<>>]
(* the members from the i-th on, at offset o, after a number p and net type *)
RECURSIVE Members(_, _, _, _, _, _)
Members(ms, i, o, p, net, acc) ==
  IF i > Len(ms) THEN [ok |-> TRUE, end |-> o, e |-> acc]
  ELSE LET m == ms[i]
           n == CASE m.n > 0 -> m.n
                  [] m.f \in {"str", "blob"} -> p
                  [] m.f = "ip" -> net
                  [] m.f = "groups" -> IF p > 100000 THEN BIG ELSE 4 * p
                  [] OTHER -> LET e == Cstrings(o, IF m.f = "cstring" THEN 1 ELSE p) IN IF e < 0 THEN BIG ELSE e - o
           raw == Sub(F, o, n)
           num == LET b == BE(F, o, n) IN b
           text == CASE m.f = "event" -> EventText(num)
                     [] m.f = "net" -> Dec(num)
                     [] m.f = "signature" -> Hex(num, 4)
                     [] m.f = "ip4" -> Ipv4(raw)
                     [] m.f = "ip6" -> Ipv6(raw)
                     [] m.f = "ip" -> IpText(raw)
                     [] m.f = "str" -> RStrip0(raw)
                     [] m.f = "cstring" -> UpToNul(raw)
                     [] OTHER -> Render(m.f, raw, TRUE)
           here == IF m.l = "" THEN <<>> ELSE IF m.f = "blob" THEN <<Hexd(m.l, raw)>> ELSE <<Ln(m.l, text)>>
           v == IF n \in {1, 2, 4} THEN Sat(num) ELSE 0
       IN IF ~Fits(F, o, n) THEN Bad
          ELSE IF m.f = "str" /\ ~IsAscii(raw) THEN Bad
          ELSE IF m.f = "net" /\ v \notin {4, 16} THEN Bad
          ELSE IF m.f = "signature" /\ v # 45317 THEN Bad
          ELSE Members(ms, i + 1, o + n, v, IF m.f = "net" THEN v ELSE net, acc \o here)
(* [ok, t, end, e] of the token at o *)
Token(o) ==
  IF ~Fits(F, o, 1) THEN [ok |-> FALSE, t |-> 0, end |-> 0, e |-> <<>>]
  ELSE LET t == F[o + 1]
           r == IF TOKEN[t].ms = <<>> THEN Bad ELSE Members(TOKEN[t].ms, 1, o, 0, 0, <<>>)
       IN [ok |-> r.ok, t |-> t, end |-> r.end,
           e |-> IF ~r.ok THEN <<At("token type", o)>>
                 ELSE <<At("token type", o), At("token " \o TOKEN[t].d, o)>>
                      \o (IF t \in RAW THEN <<Hexd("Token " \o TOKEN[t].d \o " data", Sub(F, o, r.end - o))>> ELSE <<>>) \o r.e]
HEADERS == {20, 21, 116, 121}

ReadHeader ==
  /\ st.pc = "record"
  /\ LET o == st.o
         k == Token(o)
     IN IF o >= Len(F) THEN st' = [st EXCEPT !.pc = "done"] /\ ev' = <<>>
        ELSE IF ~k.ok THEN Fail
        ELSE /\ ev' = k.e
             /\ IF k.t \notin HEADERS \/ F[o + 6] # 11 THEN st' = [st EXCEPT !.pc = "fail"]
                ELSE st' = [st EXCEPT !.pc = "token", !.start = o, !.o = k.end, !.size = BEi(F, o + 1, 4)]
  /\ UNCHANGED sc
(* tokens up to the trailer, which repeats the size of the record           *)
ReadToken ==
  /\ st.pc = "token"
  /\ LET o == st.o
         k == Token(o)
     IN IF o >= st.start + st.size \/ ~k.ok THEN Fail
        ELSE /\ ev' = k.e
             /\ IF k.t # 19 THEN st' = [st EXCEPT !.o = k.end]
                ELSE IF BE(F, o + 3, 4) = BE(F, st.start + 1, 4) THEN st' = [st EXCEPT !.pc = "record", !.o = k.end]
                ELSE st' = [st EXCEPT !.pc = "fail"]
  /\ UNCHANGED sc
Next == ReadHeader \/ ReadToken
Done == st.pc \in {"done", "fail"}
Outcomes == IF st.pc = "done" THEN {"ok"} ELSE {"ParseError"}
-----------------------------------------------------------------------------
Covers == st.pc = "done" => st.o = Len(F)
Progress == [][st'.o > st.o \/ st'.pc \in {"done", "fail"}]_vars
=============================================================================
