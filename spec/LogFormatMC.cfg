SPECIFICATION MCSpec
CONSTANTS MaxLen = 4
          Mods = 1
          Full = FALSE
          Src <- MCSrc
INVARIANTS LiteralKept InOrder MCDump
PROPERTIES Terminates
CHECK_DEADLOCK FALSE
