SPECIFICATION MCSpec
CONSTANTS Counts = {0, 1, 2, 3, 4}
          Seconds = {"none", "whole", "start", "cut", "other", "first", "signature"}
          Marks = {"next", "same", "two"}
          KeyShapes = {"no", "one", "empty", "missing", "cut", "two"}
          SubShapes = {"zero", "ff", "short"}
          ValueShapes = {"two", "none", "open", "high", "past", "inside"}
          Kinds = {"active", "admin", "other"}
          Src <- MCSrc
INVARIANTS AgainOk Separated TwoTables OneTable Rejected NotRead MCDump
PROPERTIES Terminates
CHECK_DEADLOCK FALSE
