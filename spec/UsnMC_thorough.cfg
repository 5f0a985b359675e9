SPECIFICATION MCSpec
CONSTANTS Counts = {0, 1, 2, 3, 5}
          Gaps = {0, 4, 8, 59, 60, 61, 62, 64, 200, 4000, 4096}
          Src <- MCSrc
INVARIANTS InFile MCDump
PROPERTIES Forward Terminates
CHECK_DEADLOCK FALSE
