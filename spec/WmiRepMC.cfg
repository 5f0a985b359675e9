SPECIFICATION MCSpec
CONSTANTS Depths = {0, 1, 2}
          Belows = {"none", "one", "twice", "loop", "deep"}
          Lists = {"none", "two", "loop"}
          Gaps = {"no", "class", "name"}
          Subs = {"none", "loop"}
          Heads = {"plain", "middle"}
          Debugs = {FALSE, TRUE}
          Src <- MCSrc
INVARIANTS NoLoop NamesOfPath OnlySet LoopFound ListLoopFound ClassLoopFound SameAsInstances Nothing MCDump
PROPERTIES Terminates
CHECK_DEADLOCK FALSE
