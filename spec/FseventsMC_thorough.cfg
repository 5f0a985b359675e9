SPECIFICATION MCSpec
CONSTANTS MaxPages = 2
          MaxRecs = 3
          Slack <- MCSlack
          Src <- MCSrc
INVARIANTS ReadAll MCDump
PROPERTIES Forward Terminates
CHECK_DEADLOCK FALSE
