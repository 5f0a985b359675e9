SPECIFICATION MCSpec
CONSTANTS MaxPages = 2
          MaxRecs = 2
          Refs = {"none", "good", "mid", "end", "far"}
          Sizes <- AllSizes
          Src <- MCSrc
INVARIANTS PagesTile MCDump
PROPERTIES Ordered Terminates
CHECK_DEADLOCK FALSE
