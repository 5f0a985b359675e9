SPECIFICATION MCSpec
CONSTANTS MaxColumns = 2
          Formats = {0, 1, 5, 6, 4}
          Names = {"name", "code"}
          Places = {"zero", "good", "before", "first"}
          Src <- MCSrc
INVARIANTS SchemaFollowed Distinct Columns MCDump
PROPERTIES Terminates Grows
CHECK_DEADLOCK FALSE
