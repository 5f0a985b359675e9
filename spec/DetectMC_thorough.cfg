SPECIFICATION MCSpec
CONSTANTS MaxTail = 3
          Src <- MCSrc
INVARIANTS Tiled Sets TrackInside MCDump
PROPERTIES Terminates
CHECK_DEADLOCK FALSE
