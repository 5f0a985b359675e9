SPECIFICATION MCSpec
CONSTANTS Sections = {"File", "Program", "Application", "Application File", "Device", "no"}
          Refs = {"100000169dd", "1A0000", "5000000004c57", "1000010000", "ffff0000000", "019c", "10000x"}
          Values = {"text", "default", "link", "none", "version", "versions", "files", "seven", "posix", "posixtext", "installed", "filetime", "linked", "big", "short", "binary", "nothing"}
          Roots = {"{11517B7C-E79D-4e20-961B-75A811715ADD}", "{356c48f6-2fee-e7ef-2a64-39f59ec3be22}", "other"}
          Src <- MCSrc
INVARIANTS OneMeaning Each Fails Whole Quiet MCDump
PROPERTIES Terminates
CHECK_DEADLOCK FALSE
