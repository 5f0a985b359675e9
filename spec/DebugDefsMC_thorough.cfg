SPECIFICATION MCSpec
CONSTANTS MaxDocs = 3
          Src <- MCSrc
INVARIANTS AllOrError MCDump
PROPERTIES Terminates
CHECK_DEADLOCK FALSE
