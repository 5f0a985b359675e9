SPECIFICATION MCSpec
CONSTANTS MaxRows = 4
          Sizes = {0, 1, 7, 8, 9, 15}
          Src <- MCSrc
INVARIANTS DumpFaithful Labelled EndsLine MCDump
PROPERTIES Terminates
CHECK_DEADLOCK FALSE
