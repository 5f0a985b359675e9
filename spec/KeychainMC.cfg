SPECIFICATION MCSpec
CONSTANTS MaxColumns = 1
          Formats = {0, 1, 5, 6, 4}
          Names = {"name", "code", "none", "raw", "orphan"}
          Places = {"zero", "good", "before", "first", "edge", "last"}
          Src <- MCSrc
INVARIANTS SchemaFollowed Distinct Columns MCDump
PROPERTIES Terminates Grows
CHECK_DEADLOCK FALSE
