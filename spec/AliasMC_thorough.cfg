SPECIFICATION MCSpec
CONSTANTS MaxTags = 4
          Src <- MCSrc
INVARIANTS Tiled Sized MCDump
PROPERTIES Terminates
CHECK_DEADLOCK FALSE
