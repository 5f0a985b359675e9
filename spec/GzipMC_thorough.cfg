SPECIFICATION MCSpec
CONSTANTS MaxMembers = 2
          Flagss = {0, 1, 2, 4, 6, 8, 10, 12, 14, 16, 18, 20, 24, 26, 28, 30, 255}
          Faults = {"none", "magic", "method", "stream", "cut1", "cut9", "cut16"}
          Streams = {"empty", "none", "three", "two"}
          Src <- MCSrc
          Inf <- MCInf
INVARIANTS WholeFile EveryMember GoodRead MCDump
PROPERTIES Terminates Forward
CHECK_DEADLOCK FALSE
