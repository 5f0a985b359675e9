------------------------------- MODULE AmCacheMC -------------------------------
EXTENDS AmCache, Json
CONSTANTS Sections, Refs, Values, Roots
MCSrc(x) == x.src
Wide(s) == FlatSeq([i \in 1..Len(s) |-> <<s[i], 0>>])
Key(n, v, k) == [n |-> Lit(n), v |-> v, k |-> k]
W(name) == Wide(Lit(name)) \o <<0, 0>>
V(x) ==
  CASE x = "text" -> [n |-> Lit("0"), t |-> 1, d |-> W("a b")]
    [] x = "default" -> [n |-> <<>>, t |-> 1, d |-> Wide(Lit("xy"))]
    [] x = "link" -> [n |-> Lit("15"), t |-> 2, d |-> W("p") \o W("q")]
    [] x = "none" -> [n |-> Lit("c"), t |-> 1, d |-> <<>>]
    [] x = "version" -> [n |-> Lit("d"), t |-> 4, d |-> <<2, 1, 6, 0>>]
    [] x = "versions" -> [n |-> Lit("d"), t |-> 7, d |-> W("x") \o W("yz") \o <<0, 0>>]
    [] x = "files" -> [n |-> Lit("Files"), t |-> 7, d |-> W("v@1") \o W("v@2") \o W("v@3") \o <<0, 0>>]
    [] x = "seven" -> [n |-> Lit("7"), t |-> 11, d |-> <<1, 0, 0, 0, 1, 0, 0, 0>>]
    [] x = "posix" -> [n |-> Lit("f"), t |-> 4, d |-> <<0, 78, 114, 83>>]
    [] x = "posixtext" -> [n |-> Lit("f"), t |-> 1, d |-> W("f")]
    [] x = "installed" -> [n |-> Lit("a"), t |-> 11, d |-> <<0, 78, 114, 83, 0, 0, 0, 0>>]
    [] x = "filetime" -> [n |-> Lit("11"), t |-> 11, d |-> <<0, 0, 205, 172, 79, 218, 205, 1>>]
    [] x = "linked" -> [n |-> Lit("17"), t |-> 11, d |-> Zeros(8)]
    [] x = "big" -> [n |-> Lit("6"), t |-> 5, d |-> <<0, 0, 1, 2>>]
    [] x = "short" -> [n |-> Lit("9"), t |-> 4, d |-> <<1, 2>>]
    [] x = "binary" -> [n |-> Lit("ProgramId"), t |-> 3, d |-> <<0, 39, 92, 97, 255>>]
    [] OTHER -> [n |-> Lit("101"), t |-> 7, d |-> <<>>]
(* every section, of which one has the values                                  *)
Leaf(s, x) == Key(s.ref, IF s.at = x THEN <<V(s.a), V(s.b)>> ELSE <<V("text")>>, <<Key("inner", <<V("short")>>, <<>>)>>)
Tree(s) ==
  Key(s.root, <<V("short")>>,
      <<Key("Other", <<>>, <<Key("File", <<>>, <<>>)>>),
        Key(IF s.at = "no" THEN "Roo" ELSE "ROOT", <<>>,
            <<Key("programs", <<>>, <<Leaf(s, "Program"), Key("second", <<V("files")>>, <<>>)>>), Key("Device", <<>>, <<Leaf(s, "")>>),
              Key("File", <<>>, <<Key("volume", <<>>, <<Leaf(s, "File"), Key("100004b8b", <<V("filetime")>>, <<>>)>>), Key("empty", <<>>, <<>>), Key("more", <<>>, <<Leaf(s, "")>>)>>),
              Key("InventoryApplication", <<>>, <<Leaf(s, "Application")>>), Key("InventoryApplicationFile", <<>>, <<Leaf(s, "Application File")>>)>>)>>)
Scen == [root : Roots, ref : Refs, at : Sections, a : Values, b : Values, ok : BOOLEAN]
MkSrc(s) == [files |-> <<[ok |-> s.ok, root |-> Tree(s)], [ok |-> TRUE, root |-> Tree([s EXCEPT !.a = "text", !.b = "none"])]>>]
VARIABLE seen
MCInit == (\E s \in Scen : (s.ok \/ s.a = s.b) /\ sc = [s |-> s, src |-> MkSrc(s)]) /\ InitSt /\ seen = <<>>
MCNext == Next /\ seen' = seen \o ev'
MCSpec == MCInit /\ [][MCNext]_<<vars, seen>> /\ WF_<<vars, seen>>(MCNext)
Terminates == <>Done
S == sc.s
Ends == SelectSeq(seen, LAMBDA e : e.k = "!end")
Titles == SelectSeq(seen, LAMBDA e : e.k = "text")
(* a file is read, whatever was read before it                                 *)
Each == Done => Len(Ends) = 2 /\ Ends[2].res = "ok"
Known == S.root # "other" /\ S.at # "no"
Bad == {"short", "nothing"}
Failing == ~S.ok \/ (Known /\ S.at # "Device" /\ (S.a \in Bad \/ S.b \in Bad))
Fails == Done => Ends[1].res = IF Failing THEN "ParseError" ELSE "ok"
(* no key is lost: 3 files, 2 programs, an application and its file            *)
Whole == (Done /\ ~Failing) => Len(Titles) = IF Known THEN 14 ELSE 0
Quiet == (Done /\ ~Known) => \A i \in 1..Len(seen) : seen[i].k = "!end"
MCDump == Done => PrintT("SCEN " \o ToJson([src |-> sc.src]))
=============================================================================
