SPECIFICATION MCSpec
CONSTANTS MaxParts = 4
          Src <- MCSrc
          Kind <- MCKind
INVARIANTS WholeMap OnBlocks NoneLost MCDump
PROPERTIES Terminates
CHECK_DEADLOCK FALSE
