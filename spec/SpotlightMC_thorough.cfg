SPECIFICATION MCSpec
CONSTANTS Reports = {TRUE, FALSE}
          Types = {0, 1, 2, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15}
          Props = {0, 1, 2, 3}
          Kinds = {"good", "odd", "none", "big"}
          Shapes = {"plain", "streams", "skip", "lz4", "loop", "chain", "sizes", "unknown", "again", "two", "cut", "unused", "map0", "nomap", "empty"}
          Src <- MCSrc
INVARIANTS Distinct NoLoop Count NotRead MCDump
PROPERTIES Terminates
CHECK_DEADLOCK FALSE
