SPECIFICATION MCSpec
CONSTANTS MaxEntries = 2
          Extra <- MCExtra
          Src <- MCSrc
INVARIANTS WholeEntries MCDump
PROPERTIES Terminates
CHECK_DEADLOCK FALSE
