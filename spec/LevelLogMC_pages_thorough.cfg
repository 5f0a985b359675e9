SPECIFICATION MCSpec
CONSTANTS PageSize = 24
          Sizes = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 40, 41, 60, 80, 127}
          Damage = {"none", "cut", "zeros"}
          Dump = FALSE
          Src <- MCSrc
          Page <- MCPage
          Kind <- MCKind
INVARIANTS FragmentStart InRecord ReadBack NoFailure Whole MCDump
PROPERTIES Forward Terminates
CHECK_DEADLOCK FALSE
