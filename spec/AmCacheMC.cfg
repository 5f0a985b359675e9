SPECIFICATION MCSpec
CONSTANTS Sections = {"File", "Program", "Application", "Application File", "Device", "no"}
          Refs = {"100000169dd", "5000000004c57"}
          Values = {"default", "version", "files", "posixtext", "short", "binary"}
          Roots = {"{11517B7C-E79D-4e20-961B-75A811715ADD}", "other"}
          Src <- MCSrc
INVARIANTS OneMeaning Each Fails Whole Quiet MCDump
PROPERTIES Terminates
CHECK_DEADLOCK FALSE
