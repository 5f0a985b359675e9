SPECIFICATION MCSpec
CONSTANTS Counts = {0, 1, 3}
          Seconds = {"none", "whole", "start", "cut", "other", "first", "signature"}
          Marks = {"next", "same", "two"}
          KeyShapes = {"no", "one", "empty", "missing", "cut"}
          SubShapes = {"zero", "ff", "short"}
          ValueShapes = {"two", "none", "open", "high", "past", "inside"}
          Kinds = {"active", "admin"}
          Src <- MCSrc
INVARIANTS AgainOk Separated TwoTables OneTable Rejected NotRead MCDump
PROPERTIES Terminates
CHECK_DEADLOCK FALSE
