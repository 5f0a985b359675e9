SPECIFICATION MCSpec
CONSTANTS KeySets <- FewKeys
          Restart = {1, 2, 16}
          Damage = {"none", "type", "size", "small", "tiny", "handle", "restart", "index", "magic"}
          Kinds = {"leveldb", "indexeddb"}
          Src <- MCSrc
          Unz <- MCUnz
          Kind <- MCKind
INVARIANTS InTable ReadBack SameKeys NoFailure MCDump
PROPERTIES PrefixClosed Terminates
CHECK_DEADLOCK FALSE
