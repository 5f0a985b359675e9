SPECIFICATION MCSpec
CONSTANTS MaxRecords = 2
          EmfRecords = {14, 24, 37}
          WmfRecords = {0, 263, 523, 2881}
          DataSizes = {0, 2, 4, 20}
          Src <- MCSrc
          Kind <- MCKind
INVARIANTS Covered MCDump
PROPERTIES Terminates Progress
CHECK_DEADLOCK FALSE
