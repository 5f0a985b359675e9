SPECIFICATION MCSpec
CONSTANTS MaxTags = 4
          Src <- MCSrc
INVARIANTS Complete Inside MCDump
PROPERTIES Terminates
CHECK_DEADLOCK FALSE
