SPECIFICATION MCSpec
CONSTANTS MaxLen = 6
          Alphabet = {65, 122, 65535}
          Src <- MCSrc
INVARIANTS Is32 MCDump
PROPERTIES Terminates
CHECK_DEADLOCK FALSE
