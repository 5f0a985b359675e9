SPECIFICATION MCSpec
CONSTANTS MaxLen = 5
          Mods = 4
          Full = TRUE
          Src <- MCSrc
INVARIANTS LiteralKept InOrder MCDump
PROPERTIES Terminates
CHECK_DEADLOCK FALSE
