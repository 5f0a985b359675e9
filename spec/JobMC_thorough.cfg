SPECIFICATION MCSpec
CONSTANTS MaxTriggers = 4
          Texts = {"empty", "nul", "ab", "raw", "mid", "half", "long"}
          Src <- MCSrc
INVARIANTS HasSections MCDump
PROPERTIES Terminates
CHECK_DEADLOCK FALSE
