SPECIFICATION MCSpec
CONSTANTS Kinds = {"Storage", "NSArray", "NSMutableSet", "NSDictionary", "NSHashTable", "NSURL", "NSUUID"}
          Inners = {"Storage", "NSArray", "NSMutableSet", "NSDictionary", "NSHashTable", "NSURL", "NSUUID", "NSData"}
          Values = {"zero", "false", "empty", "text", "data", "list", "raw", "date"}
          Targets = {0, 1, 2, 3, 5, 9}
          Bads = {"no", "name", "inline", "class", "archiver", "version"}
          Src <- MCSrc
INVARIANTS InOrder Each Same Decodes Fails Whole MCDump
PROPERTIES Terminates
CHECK_DEADLOCK FALSE
