SPECIFICATION MCSpec
CONSTANTS Depth = 5
          Src <- MCSrc
INVARIANTS OnlyGood HandlesMatch Reusable MCDump
PROPERTIES RefusedKeeps
CHECK_DEADLOCK FALSE
