SPECIFICATION MCSpec
CONSTANTS MaxPages = 2
          MaxRecs = 2
          Slack <- MCSlack
          Src <- MCSrc
INVARIANTS ReadAll MCDump
PROPERTIES Forward Terminates
CHECK_DEADLOCK FALSE
