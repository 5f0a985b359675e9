SPECIFICATION MCSpec
CONSTANTS Heads = {"nil", "e0", "file", "other", "odd"}
          Nexts = {"nil", "e0"}
          Shapes = {"plain", "nodata", "version", "shortlru", "partial"}
          Src <- MCSrc
          Kind <- MCKind
          Ops <- MCOps
          Hdr <- MCHdr
INVARIANTS ChainBound OnlyOpen MCDump
PROPERTIES Terminates
CHECK_DEADLOCK FALSE
