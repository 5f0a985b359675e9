SPECIFICATION MCSpec
CONSTANTS Counts = {0, 1, 3}
          Gaps = {0, 8, 60, 61, 200, 4096}
          Src <- MCSrc
INVARIANTS InFile MCDump
PROPERTIES Forward Terminates
CHECK_DEADLOCK FALSE
