SPECIFICATION MCSpec
CONSTANTS Kinds = {"Storage", "NSArray", "NSMutableSet", "NSDictionary", "NSHashTable", "NSURL", "NSUUID"}
          Inners = {"Storage", "NSMutableSet", "NSHashTable", "NSUUID", "NSData"}
          Values = {"zero", "false", "empty", "text", "data", "list", "raw", "date"}
          Targets = {0, 1, 3, 5, 9}
          Bads = {"no", "name", "inline"}
          Src <- MCSrc
INVARIANTS InOrder Each Same Decodes Fails Whole MCDump
PROPERTIES Terminates
CHECK_DEADLOCK FALSE
