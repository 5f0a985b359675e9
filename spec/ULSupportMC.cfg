SPECIFICATION MCSpec
CONSTANTS Refs = {0, 3, 4, 6, 7, 8}
          Sizes = {0, 3, 4}
          Src <- MCSrc
INVARIANTS Contained Resolved MCDump
PROPERTIES Terminates
CHECK_DEADLOCK FALSE
