SPECIFICATION MCSpec
CONSTANTS Reports = {TRUE}
          Types = {0, 2, 7, 8, 9, 10, 11, 12, 14, 15, 13}
          Props = {0, 2, 3}
          Kinds = {"good", "odd", "none", "big"}
          Shapes = {"plain", "streams", "lz4", "loop"}
          Src <- MCSrc
INVARIANTS Distinct NoLoop Count NotRead MCDump
PROPERTIES Terminates
CHECK_DEADLOCK FALSE
