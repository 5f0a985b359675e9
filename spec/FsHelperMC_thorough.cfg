SPECIFICATION MCSpec
CONSTANTS MaxSegs = 4
          Src <- MCSrc
INVARIANTS SameThing RoundTrip BaseInParent MCDump
PROPERTIES Terminates
CHECK_DEADLOCK FALSE
