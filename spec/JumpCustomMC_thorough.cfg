SPECIFICATION MCSpec
CONSTANTS MaxCategories = 2
          Types = {0, 1, 2}
          Shapes = {"", "f", "lf", "l", "xf", "bf", "llf", "lff"}
          Src <- MCSrc
          Lnks <- MCLnks
INVARIANTS Footed MCDump
PROPERTIES Terminates Progress
CHECK_DEADLOCK FALSE
