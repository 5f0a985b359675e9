SPECIFICATION MCSpec
CONSTANTS MaxRecords = 2
          Refs = {"none", "inline", "ref", "bad", "far"}
          Src <- MCSrc
INVARIANTS InFile MCDump
PROPERTIES OnceEach Terminates
CHECK_DEADLOCK FALSE
