SPECIFICATION MCSpec
CONSTANTS MaxDocs = 2
          Src <- MCSrc
INVARIANTS AllOrError MCDump
PROPERTIES Terminates
CHECK_DEADLOCK FALSE
