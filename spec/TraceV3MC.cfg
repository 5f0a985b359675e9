SPECIFICATION MCSpec
CONSTANTS Kinds = {"log", "act", "sign", "trace", "dump", "sync"}
          Refs = {0, 4, 9}
          Numbers = {1}
          Src <- MCSrc
INVARIANTS OfBoot PathHasImage Masked MCDump
PROPERTIES Terminates
CHECK_DEADLOCK FALSE
