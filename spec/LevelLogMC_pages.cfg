SPECIFICATION MCSpec
CONSTANTS PageSize = 40
          Sizes = {0, 1, 6, 7, 9, 12, 40}
          Damage = {"none", "cut", "zeros"}
          Dump = FALSE
          Src <- MCSrc
          Page <- MCPage
          Kind <- MCKind
INVARIANTS FragmentStart InRecord ReadBack NoFailure Whole MCDump
PROPERTIES Forward Terminates
CHECK_DEADLOCK FALSE
