SPECIFICATION MCSpec
CONSTANTS Depth = 3
          Src <- MCSrc
VIEW View
INVARIANTS NonNegative Dump
PROPERTIES Contained Isolated
CHECK_DEADLOCK FALSE
