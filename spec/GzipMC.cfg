SPECIFICATION MCSpec
CONSTANTS MaxMembers = 2
          Flagss = {0, 2, 4, 8, 16, 31}
          Faults = {"none", "magic", "method", "stream", "cut1", "cut9", "cut16"}
          Streams = {"empty", "none", "three", "two"}
          Src <- MCSrc
          Inf <- MCInf
INVARIANTS WholeFile EveryMember GoodRead MCDump
PROPERTIES Terminates Forward
CHECK_DEADLOCK FALSE
