SPECIFICATION MCSpec
CONSTANTS MaxEntries = 3
          Src <- MCSrc
          Kind <- MCKind
INVARIANTS WholeEntries NeedsSignature MCDump
PROPERTIES Terminates
CHECK_DEADLOCK FALSE
