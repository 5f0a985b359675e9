SPECIFICATION MCSpec
CONSTANTS Depths = {0, 1, 2, 3}
          Belows = {"none", "one", "twice", "loop", "deep"}
          Lists = {"none", "two", "loop"}
          Gaps = {"no", "class", "name", "branch", "definition", "instance", "kind", "values", "footer"}
          Subs = {"none", "loop", "other"}
          Heads = {"plain", "middle", "flags", "first", "end", "flagged", "rest", "absent"}
          Debugs = {FALSE, TRUE}
          Src <- MCSrc
INVARIANTS NoLoop NamesOfPath OnlySet LoopFound ListLoopFound ClassLoopFound SameAsInstances Nothing MCDump
PROPERTIES Terminates
CHECK_DEADLOCK FALSE
