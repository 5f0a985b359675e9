SPECIFICATION MCSpec
CONSTANTS MaxEntries = 2
          Versions = {0, 1, 2, 5}
          Paths = {"none", "a", "nul", "half", "long"}
          Src <- MCSrc
          Opened <- MCOpened
INVARIANTS Covers AllLnk MCDump
PROPERTIES Terminates
CHECK_DEADLOCK FALSE
