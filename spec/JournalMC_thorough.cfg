SPECIFICATION MCSpec
CONSTANTS MaxArrays = 3
          PerArray = 2
          Src <- MCSrc
INVARIANTS MCDump
PROPERTIES ArraysOnce Terminates
CHECK_DEADLOCK FALSE
