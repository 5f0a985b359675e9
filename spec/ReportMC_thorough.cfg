SPECIFICATION MCSpec
CONSTANTS MaxRows = 6
          Sizes = {0, 1, 2, 7, 8, 9, 14, 15}
          Src <- MCSrc
INVARIANTS DumpFaithful Labelled EndsLine MCDump
PROPERTIES Terminates
CHECK_DEADLOCK FALSE
