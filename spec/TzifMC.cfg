SPECIFICATION MCSpec
CONSTANTS MaxN = 2
          MaxX = 1
          Cuts = {0, 1, 5, 20}
          Src <- MCSrc
INVARIANTS Inside SecondBlock GoodRead MCDump
PROPERTIES Terminates Forward
CHECK_DEADLOCK FALSE
