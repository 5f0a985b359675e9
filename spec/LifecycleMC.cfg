SPECIFICATION MCSpec
CONSTANTS Depth = 4
          Src <- MCSrc
INVARIANTS OnlyGood HandlesMatch Reusable MCDump
PROPERTIES RefusedKeeps
CHECK_DEADLOCK FALSE
