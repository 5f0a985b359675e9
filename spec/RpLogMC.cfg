SPECIFICATION MCSpec
CONSTANTS MaxUnits = 2
          MaxData = 10
          Src <- MCSrc
INVARIANTS WholeFile MCDump
PROPERTIES Terminates Forward
CHECK_DEADLOCK FALSE
