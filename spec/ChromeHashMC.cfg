SPECIFICATION MCSpec
CONSTANTS Values = {0, 97, 255}
          Longest = 5
          Src <- MCSrc
INVARIANTS Is32 MCDump
PROPERTIES Terminates
CHECK_DEADLOCK FALSE
