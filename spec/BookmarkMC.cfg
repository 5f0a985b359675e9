SPECIFICATION MCSpec
CONSTANTS MaxTags = 2
          Src <- MCSrc
INVARIANTS Complete Inside MCDump
PROPERTIES Terminates
CHECK_DEADLOCK FALSE
