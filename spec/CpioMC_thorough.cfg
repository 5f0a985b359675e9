SPECIFICATION MCSpec
CONSTANTS MaxEntries = 3
          Cuts = {0}
          Src <- MCSrc
          Probes <- MCProbes
INVARIANTS TypeOK UniquePaths NoTrailer Contained RoundTrip WholeAccepted Dump
PROPERTIES Progress OnlyGrows Terminates
CHECK_DEADLOCK FALSE
