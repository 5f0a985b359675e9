SPECIFICATION MCSpec
CONSTANTS MaxN = 3
          MaxX = 1
          Cuts = {0, 1, 2, 3, 4, 5, 6, 7, 9, 12, 20, 40}
          Src <- MCSrc
INVARIANTS Inside SecondBlock GoodRead MCDump
PROPERTIES Terminates Forward
CHECK_DEADLOCK FALSE
