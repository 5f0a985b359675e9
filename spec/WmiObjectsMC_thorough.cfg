SPECIFICATION MCSpec
CONSTANTS Kinds = {2, 8, 11, 16, 17, 19, 20, 102, 8200, 8211, 13}
          Names = {"Ab", "aB", "x"}
          Tops = {"own", "top", "top2"}
          Hows = {"text", "none", "number"}
          Shapes = {"plain", "bare", "same", "array", "true", "none", "pre", "noinst", "dyn", "cut", "far"}
          Src <- MCSrc
INVARIANTS LayoutDistinct LayoutCovers Lineage Read Overrides NeedsType Inherited MCDump
PROPERTIES Terminates
CHECK_DEADLOCK FALSE
