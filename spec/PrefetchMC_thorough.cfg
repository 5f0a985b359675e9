SPECIFICATION MCSpec
CONSTANTS MaxLen = 8
          Alphabet = {65, 122, 65535}
          Src <- MCSrc
INVARIANTS Is32 MCDump
PROPERTIES Terminates
CHECK_DEADLOCK FALSE
