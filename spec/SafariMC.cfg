SPECIFICATION MCSpec
CONSTANTS MaxPages = 2
          MaxRecs = 2
          Refs = {"none", "good", "end", "far"}
          Sizes = {0, 3}
          Src <- MCSrc
INVARIANTS PagesTile MCDump
PROPERTIES Ordered Terminates
CHECK_DEADLOCK FALSE
