SPECIFICATION MCSpec
CONSTANTS Versions = {TRUE, FALSE}
          Maps = {"both", "active", "later", "equal", "bad", "none", "noindex", "nodata"}
          Recs = {"plain", "span", "id", "size", "neg", "zero", "text", "gone", "cut"}
          Classes = {"own", "super", "nosuper", "loop", "none"}
          Trees = {"flat", "wide", "deep", "again", "beyond", "noadmin"}
          Names = {"new", "first", "known", "orphan", "none"}
          Depth = 2
          Src <- MCSrc
INVARIANTS ClosedIsEmpty NoFiles Below AllKeys AllInstances AllNames Orphans Nameless Supers Loops MCDump
PROPERTIES Terminates
CHECK_DEADLOCK FALSE
