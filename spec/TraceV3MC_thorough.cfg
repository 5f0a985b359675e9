SPECIFICATION MCSpec
CONSTANTS Kinds = {"log", "act", "sign", "trace", "dump", "sync"}
          Refs = {0, 3, 4, 8, 9}
          Numbers = {0, 1, 2}
          Src <- MCSrc
INVARIANTS OfBoot PathHasImage Masked MCDump
PROPERTIES Terminates
CHECK_DEADLOCK FALSE
