SPECIFICATION MCSpec
CONSTANTS MaxCategories = 2
          Types = {0, 1, 2, 3}
          Shapes = {"f", "lf", "l"}
          Src <- MCSrc
          Lnks <- MCLnks
INVARIANTS Footed MCDump
PROPERTIES Terminates Progress
CHECK_DEADLOCK FALSE
