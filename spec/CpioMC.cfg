SPECIFICATION MCSpec
CONSTANTS MaxEntries = 2
          Cuts = {0, 5}
          Src <- MCSrc
          Probes <- MCProbes
INVARIANTS TypeOK UniquePaths NoTrailer Contained RoundTrip WholeAccepted Dump
PROPERTIES Progress OnlyGrows Terminates
CHECK_DEADLOCK FALSE
