SPECIFICATION MCSpec
CONSTANTS MaxRecords = 2
          EmfRecords = {1, 14, 24, 37, 300}
          WmfRecords = {0, 259, 263, 295, 523, 524, 2881, 9}
          DataSizes = {0, 2, 3, 4, 18, 20}
          Src <- MCSrc
          Kind <- MCKind
INVARIANTS Covered MCDump
PROPERTIES Terminates Progress
CHECK_DEADLOCK FALSE
