SPECIFICATION MCSpec
CONSTANTS MaxEntries = 4
          Versions = {0, 1, 2, 3, 4, 5}
          Paths = {"none", "a", "nul", "half", "long"}
          Src <- MCSrc
          Opened <- MCOpened
INVARIANTS Covers AllLnk MCDump
PROPERTIES Terminates
CHECK_DEADLOCK FALSE
