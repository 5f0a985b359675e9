------------------------------ MODULE RangeMC -------------------------------
EXTENDS Range, Json
CONSTANTS Depth
VARIABLE hist
mcvars == <<sc, st, ev, hist>>
View == <<sc, [st EXCEPT !.i = 0], ev, Len(hist)>>
MCSrc(x) == x

P == <<10, 11, 12, 13>>
Wins == {[off |-> 0, size |-> 4], [off |-> 1, size |-> 2], [off |-> 3, size |-> 3],
         [off |-> 5, size |-> 1], [off |-> 2, size |-> 0], [off |-> -1, size |-> 2],
         [off |-> 1, size |-> -1]}
Ops == [op : {"read"}, w : {1, 2}, n : {-2, -1, 0, 1, 3}, whence : {0}]
       \cup [op : {"seek"}, w : {1, 2}, n : {-1, 0, 1, 5}, whence : {0, 1, 2, 3}]
       \cup [op : {"size", "parent"}, w : {1}, n : {2}, whence : {0}]
MCInit == /\ \E a \in Wins : sc = [parent |-> P, wins |-> <<a, [off |-> 1, size |-> 2]>>, ops |-> <<>>]
          /\ InitSt /\ hist = <<>>
MCNext == Len(hist) < Depth /\ \E o \in Ops : Do(o) /\ hist' = Append(hist, o)
MCSpec == MCInit /\ [][MCNext]_mcvars
Dump == Len(hist) = Depth => PrintT("SCEN " \o ToJson([parent |-> sc.parent, wins |-> sc.wins, ops |-> hist]))
=============================================================================
