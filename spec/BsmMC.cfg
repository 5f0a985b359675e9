SPECIFICATION MCSpec
CONSTANTS Headers = {20, 21, 121, 0}
          Tokens = {"text", "empty", "args", "noargs", "high", "groups", "ip6", "sock", "head", "unknown", "exit", "many", "unix"}
          MaxTokens = 2
          MaxRecords = 2
          Src <- MCSrc
INVARIANTS Covers MCDump
PROPERTIES Terminates Progress
CHECK_DEADLOCK FALSE
