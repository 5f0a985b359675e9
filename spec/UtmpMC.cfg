SPECIFICATION MCSpec
CONSTANTS MaxEntries = 2
          Src <- MCSrc
          Kind <- MCKind
INVARIANTS WholeEntries NeedsSignature MCDump
PROPERTIES Terminates
CHECK_DEADLOCK FALSE
