SPECIFICATION MCSpec
CONSTANTS MaxEntries = 1
          MaxSubs = 2
          Faults = {"none", "size+", "size-", "size0", "copy", "type", "sig", "cut", "hsize+", "hsize0", "hcopy", "htype", "vtype", "version", "vsize+", "vsize-", "vsize0"}
          Src <- MCSrc
INVARIANTS WholeFile InRecord AllEntries MCDump
PROPERTIES Terminates Forward
CHECK_DEADLOCK FALSE
