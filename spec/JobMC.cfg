SPECIFICATION MCSpec
CONSTANTS MaxTriggers = 2
          Texts = {"empty", "nul", "ab", "mid", "half", "long"}
          Src <- MCSrc
INVARIANTS HasSections MCDump
PROPERTIES Terminates
CHECK_DEADLOCK FALSE
