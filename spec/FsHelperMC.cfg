SPECIFICATION MCSpec
CONSTANTS MaxSegs = 3
          Src <- MCSrc
INVARIANTS SameThing RoundTrip BaseInParent MCDump
PROPERTIES Terminates
CHECK_DEADLOCK FALSE
