SPECIFICATION MCSpec
CONSTANTS Values = {0, 97, 128, 255}
          Longest = 7
          Src <- MCSrc
INVARIANTS Is32 MCDump
PROPERTIES Terminates
CHECK_DEADLOCK FALSE
