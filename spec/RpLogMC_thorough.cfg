SPECIFICATION MCSpec
CONSTANTS MaxUnits = 4
          MaxData = 12
          Src <- MCSrc
INVARIANTS WholeFile MCDump
PROPERTIES Terminates Forward
CHECK_DEADLOCK FALSE
