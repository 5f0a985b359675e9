SPECIFICATION MCSpec
CONSTANTS MaxUnits = 5
          Src <- MCSrc
INVARIANTS OnlySupported MCDump
PROPERTIES Terminates
CHECK_DEADLOCK FALSE
