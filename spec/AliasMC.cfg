SPECIFICATION MCSpec
CONSTANTS MaxTags = 2
          Src <- MCSrc
INVARIANTS Tiled Sized MCDump
PROPERTIES Terminates
CHECK_DEADLOCK FALSE
