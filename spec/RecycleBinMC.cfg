SPECIFICATION MCSpec
CONSTANTS MaxUnits = 3
          Src <- MCSrc
INVARIANTS OnlySupported MCDump
PROPERTIES Terminates
CHECK_DEADLOCK FALSE
