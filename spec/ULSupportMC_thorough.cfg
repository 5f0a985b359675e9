SPECIFICATION MCSpec
CONSTANTS Refs = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 12}
          Sizes = {0, 1, 3, 4, 5}
          Src <- MCSrc
INVARIANTS Contained Resolved MCDump
PROPERTIES Terminates
CHECK_DEADLOCK FALSE
