-------------------------------- MODULE Detect -------------------------------
(* Windows Defender scan DetectionHistory: values of several types, each     *)
(* aligned to 8 bytes, up to the end of the file. The values form sets: the  *)
(* value "Magic.Version:1.2" starts the next set. Value 5 of set 2 is the    *)
(* threat tracking data: values of its own, with an optional header.         *)
EXTENDS Text
CONSTANT Src(_)
VARIABLES sc, st, ev
vars == <<sc, st, ev>>
F == Src(sc)

CATEGORY == <<"INVALID", "ADWARE", "SPYWARE", "PASSWORDSTEALER", "TROJANDOWNLOADER", "WORM", "BACKDOOR", "REMOTEACCESSTROJAN", "TROJAN", "EMAILFLOODER", "KEYLOGGER", "DIALER", "MONITORINGSOFTWARE", "BROWSERMODIFIER", "COOKIE", "BROWSERPLUGIN", "AOLEXPLOIT", "NUKER", "SECURITYDISABLER", "JOKEPROGRAM", "HOSTILEACTIVEXCONTROL", "SOFTWAREBUNDLER", "STEALTHNOTIFIER", "SETTINGSMODIFIER", "TOOLBAR", "REMOTECONTROLSOFTWARE", "TROJANFTP", "POTENTIALUNWANTEDSOFTWARE", "ICQEXPLOIT", "TROJANTELNET", "EXPLOIT", "FILESHARINGPROGRAM", "MALWARE_CREATION_TOOL", "REMOTE_CONTROL_SOFTWARE", "TOOL", "UNKNOWN", "TROJAN_DENIALOFSERVICE", "TROJAN_DROPPER", "TROJAN_MASSMAILER", "TROJAN_MONITORINGSOFTWARE", "TROJAN_PROXYSERVER", "UNKNOWN", "VIRUS", "KNOWN", "UNKNOWN", "SPP", "BEHAVIOR", "VULNERABILTIY", "POLICY", "EUS", "RANSOM", "ASR">>
MAGIC == Lit("Magic.Version:1.2")
NAMES(set) ==
  CASE set = 0 -> [i \in {0, 1} |-> <<"Threat identifier", "Identifier">>[i + 1]]
    [] set = 1 -> [i \in {0, 1, 4} |-> CASE i = 0 -> "UnknownMagic1" [] i = 1 -> "Threat name" [] OTHER -> "Category"]
    [] OTHER -> [i \in {0, 1, 2, 4, 6, 12, 14, 18, 20, 24} |->
                   CASE i = 0 -> "UnknownMagic2" [] i = 1 -> "Resource type" [] i = 2 -> "Resource location" [] i = 4 -> "Threat tracking data size"
                     [] i = 6 -> "Last threat status change time" [] i = 12 -> "Domain user1" [] i = 14 -> "Process name"
                     [] i = 18 -> "Initial detection time" [] i = 20 -> "Remediation time" [] OTHER -> "Domain user2"]
Label(set, i) == IF i \in DOMAIN NAMES(set) THEN NAMES(set)[i] ELSE "UNKNOWN_" \o StrOf(DecI(set)) \o "_" \o StrOf(DecI(i))

InitSt == st = [pc |-> "values", off |-> 0, vals |-> <<>>, i |-> 1, set |-> 0, idx |-> 0, t |-> 0, tend |-> 0] /\ ev = <<>>
Fail == st' = [st EXCEPT !.pc = "fail"] /\ ev' = <<>>

(* UTF-16 text up to the first NUL character                                 *)
RECURSIVE NulAt(_, _)
NulAt(s, p) == IF p > Len(s) THEN Len(s) ELSE IF p < Len(s) /\ s[p] = 0 /\ s[p + 1] = 0 THEN p - 1 ELSE NulAt(s, p + 2)
Text16(s) == LET t == SubSeq(s, 1, NulAt(s, 1)) IN IF Len(t) % 2 = 1 THEN <<FALSE, <<>>>> ELSE Utf16(t)

Size(o) == LEi(F, o, 4)
Type(o) == LEi(F, o + 4, 4)
Data(o) == Sub(F, o + 8, Size(o))
PadSize(o) == (8 - ((8 + Size(o)) % 8)) % 8
Shape(o) == CASE Type(o) \in {0, 5, 6, 8} -> "integer" [] Type(o) = 10 -> "filetime" [] Type(o) = 21 -> "string" [] Type(o) = 30 -> "guid" [] Type(o) = 40 -> "data" [] OTHER -> "none"
Sized(o) == CASE Type(o) \in {0, 5, 6} -> Size(o) = 4 [] Type(o) \in {8, 10} -> Size(o) = 8 [] Type(o) = 30 -> Size(o) = 16 [] OTHER -> TRUE
ValOk(o) == /\ Fits(F, o, 8) /\ Size(o) < BIG /\ Fits(F, o + 8, Size(o) + PadSize(o))
            /\ Shape(o) # "none" /\ Sized(o) /\ (Shape(o) = "string" => Text16(Data(o))[1])
ValEv(o) ==
  <<At("value", o), Ln("Data size", DecI(Size(o))), Ln("Data type", Hex(Nat2(Type(o)), 8))>>
  \o (CASE Shape(o) = "integer" -> <<Ln("Value integer", Dec(Norm(Data(o))))>>
        [] Shape(o) = "filetime" -> <<Ln("Value FILETIME", FiletimeText(Norm(Data(o))))>>
        [] Shape(o) = "guid" -> <<Ln("Value GUID", UuidLE(Data(o)))>>
        [] Shape(o) = "string" -> <<Ln("Value string", Text16(Data(o))[2])>>
        [] OTHER -> <<Hexd("Data", Data(o))>>)
  \o <<Hexd("Alignment padding", Sub(F, o + 8 + Size(o), PadSize(o)))>>
ReadValue ==
  /\ st.pc = "values" /\ st.off < Len(F)
  /\ IF ~ValOk(st.off) THEN Fail
     ELSE /\ st' = [st EXCEPT !.off = @ + 8 + Size(@) + PadSize(@), !.vals = Append(@, st.off)]
          /\ ev' = ValEv(st.off)
  /\ UNCHANGED sc
AllRead ==
  /\ st.pc = "values" /\ st.off >= Len(F)
  /\ st' = [st EXCEPT !.pc = "sets"] /\ ev' = <<>>
  /\ UNCHANGED sc

ValText(o) == CASE Shape(o) \in {"integer", "filetime"} -> Dec(Norm(Data(o)))
                [] Shape(o) = "guid" -> UuidLE(Data(o))
                [] Shape(o) = "string" -> Text16(Data(o))[2]
                [] OTHER -> <<98>> \o BytesRepr(Data(o))
Category(o) == IF Shape(o) \in {"integer", "filetime"} /\ Sat(Norm(Data(o))) < Len(CATEGORY) THEN CATEGORY[Sat(Norm(Data(o))) + 1] ELSE "UNKNOWN"
O == st.vals[st.i]
IsMagic(o) == Shape(o) = "string" /\ Text16(Data(o))[2] = MAGIC
Set == IF IsMagic(O) /\ st.set < 2 THEN st.set + 1 ELSE st.set
Idx == IF IsMagic(O) THEN 0 ELSE st.idx
Tracking == Set = 2 /\ Idx = 5
ShowValue ==
  /\ st.pc = "sets" /\ st.i <= Len(st.vals) /\ ~Tracking
  /\ st' = [st EXCEPT !.i = @ + 1, !.set = Set, !.idx = Idx + 1]
  /\ ev' = <<Ln(Label(Set, Idx), IF Set = 1 /\ Idx = 4 THEN ValText(O) \o <<32, 40>> \o Lit(Category(O)) \o <<41>> ELSE ValText(O))>>
  /\ UNCHANGED sc

(* threat tracking data: T, at B in the file                                 *)
B == O + 8
T == Data(O)
Tracked ==
  /\ st.pc = "sets" /\ st.i <= Len(st.vals) /\ Tracking
  /\ IF Shape(O) # "data" \/ Len(T) < 4 THEN Fail
     ELSE IF LE(T, 0, 4) # <<1>>
     THEN /\ st' = [st EXCEPT !.pc = "tracking", !.t = 4, !.tend = LEi(T, 0, 4)]
          /\ ev' = <<At("threat tracking data", B)>>
     ELSE IF Len(T) < 20 THEN Fail
     ELSE /\ st' = [st EXCEPT !.pc = "tracking", !.t = LEi(T, 4, 4) + 4, !.tend = LEi(T, 12, 4)]
          /\ ev' = <<At("threat tracking data", B)>> \o Fields(T, 0, FALSE, <<Field("Version", 0, 4, "dec"), Field("Header size", 4, 4, "dec"),
                     Field("Values data size", 8, 4, "dec"), Field("Total data size", 12, 4, "dec"), Field("Unknown2", 16, 4, "hex8")>>)
  /\ UNCHANGED sc

KSize == LEi(T, st.t, 4)
Key == Text16(Sub(T, st.t + 4, KSize))
V == st.t + 4 + KSize
VType == LEi(T, V, 4)
VSize == LEi(T, V + 4, 4)
VStr == Text16(Sub(T, V + 8, VSize))
VLen == CASE VType = 5 -> 1 [] VType = 3 -> 4 [] VType = 4 -> 8 [] VType = 7 -> 5 [] OTHER -> 4
TvOk == /\ Fits(T, st.t, 4) /\ KSize < BIG
        /\ Fits(T, st.t + 4, KSize) /\ Key[1]
        /\ Fits(T, V, 4) /\ VType \in {3, 4, 5, 6, 7} /\ Fits(T, V + 4, VLen)
        /\ (VType = 6 => VSize < BIG /\ Fits(T, V + 8, VSize) /\ VStr[1])
TvEnd == V + 4 + VLen + (IF VType = 6 THEN VSize ELSE 0)
ReadTracking ==
  /\ st.pc = "tracking" /\ st.t < st.tend
  /\ IF ~TvOk THEN Fail
     ELSE /\ st' = [st EXCEPT !.t = TvEnd]
          /\ ev' = <<Ln("Key string size", DecI(KSize)), Ln("Key string", Key[2]), Ln("Value type", Hex(Nat2(VType), 8))>>
                   \o (CASE VType \in {3, 4, 5} -> <<Ln("Value integer", Dec(Norm(Sub(T, V + 4, VLen))))>>
                         [] VType = 6 -> <<Ln("Value string size", DecI(VSize)), Ln("Value string", VStr[2])>>
                         [] OTHER -> <<Hexd("Value data", Sub(T, V + 4, 5))>>)
  /\ UNCHANGED sc
EndTracking ==
  /\ st.pc = "tracking" /\ st.t >= st.tend
  /\ st' = [st EXCEPT !.pc = "sets", !.i = @ + 1, !.set = Set, !.idx = Idx + 1] /\ ev' = <<>>
  /\ UNCHANGED sc

Finish ==
  /\ st.pc = "sets" /\ st.i > Len(st.vals)
  /\ st' = [st EXCEPT !.pc = "done"] /\ ev' = <<>>
  /\ UNCHANGED sc

Next == ReadValue \/ AllRead \/ ShowValue \/ Tracked \/ ReadTracking \/ EndTracking \/ Finish
Done == st.pc \in {"done", "fail"}
Outcomes == IF st.pc = "done" THEN {"ok"} ELSE {"ParseError"}
-----------------------------------------------------------------------------
(* the values tile the file                                                  *)
Tiled == LET n == Len(st.vals) IN st.pc = "done" /\ n > 0 =>
  st.vals[1] = 0 /\ (\A i \in 1..n : st.vals[i] % 8 = 0) /\ st.off = Len(F)
  /\ \A i \in 1..(n - 1) : st.vals[i + 1] = st.vals[i] + 8 + Size(st.vals[i]) + PadSize(st.vals[i])
(* a set starts with the magic value                                         *)
Sets == st.pc = "done" => st.set <= Cardinality({i \in 1..Len(st.vals) : IsMagic(st.vals[i])})
TrackInside == st.pc = "tracking" => st.i <= Len(st.vals) /\ Shape(O) = "data"
=============================================================================
