SPECIFICATION MCSpec
CONSTANTS Kinds = {2, 8, 11, 8200, 13}
          Names = {"Ab", "aB", "x"}
          Tops = {"own", "top", "top2"}
          Hows = {"text", "none", "number"}
          Shapes = {"plain", "bare", "same", "array", "true", "none", "pre"}
          Src <- MCSrc
INVARIANTS LayoutDistinct LayoutCovers Lineage Read Overrides NeedsType Inherited MCDump
PROPERTIES Terminates
CHECK_DEADLOCK FALSE
