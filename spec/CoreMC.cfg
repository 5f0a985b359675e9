SPECIFICATION MCSpec
CONSTANTS MaxLen = 4
          Alphabet = {0, 1, 2}
          Src <- MCSrc
INVARIANTS NeverPastEnd AllOrNothing Complete Dump
PROPERTIES Forward Terminates
CHECK_DEADLOCK FALSE
