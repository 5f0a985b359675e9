---------------------------- MODULE LifecycleMC ----------------------------
EXTENDS Lifecycle, TLC, Json
CONSTANTS Depth
VARIABLE hist
mcvars == <<sc, st, ev, hist>>
MCSrc(x) == x
Ops == [op : {"open"}, f : {1, 2, 3, 4}] \cup [op : {"close"}, f : {1}] \cup [op : {"attach"}, f : {1, 3}]
MCInit == \E k \in {0, 1} : sc = [keeps |-> k, files |-> <<"good", "good", "bad", "missing">>, ops |-> <<>>] /\ InitSt /\ hist = <<>>
MCNext == Len(hist) < Depth /\ \E o \in Ops : Do(o) /\ hist' = Append(hist, o)
MCSpec == MCInit /\ [][MCNext]_mcvars
MCDump == Len(hist) = Depth => PrintT("SCEN " \o ToJson([keeps |-> S.keeps, ops |-> hist]))
=============================================================================
