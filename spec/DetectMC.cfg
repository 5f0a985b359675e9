SPECIFICATION MCSpec
CONSTANTS MaxTail = 2
          Src <- MCSrc
INVARIANTS Tiled Sets TrackInside MCDump
PROPERTIES Terminates
CHECK_DEADLOCK FALSE
