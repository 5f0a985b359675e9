SPECIFICATION MCSpec
CONSTANTS PageSize = 32768
          Sizes = {0, 1, 5, 30, 127}
          Damage = {"none", "cut", "short", "zeros", "type", "last", "empty", "slice", "varint", "vtype", "tag", "utf8"}
          Dump = TRUE
          Src <- MCSrc
          Page <- MCPage
          Kind <- MCKind
INVARIANTS FragmentStart InRecord ReadBack NoFailure Whole MCDump
PROPERTIES Forward Terminates
CHECK_DEADLOCK FALSE
