SPECIFICATION MCSpec
CONSTANTS Depth = 5
          Src <- MCSrc
VIEW View
INVARIANTS NonNegative Dump
PROPERTIES Contained Isolated
CHECK_DEADLOCK FALSE
