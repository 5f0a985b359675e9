SPECIFICATION MCSpec
CONSTANTS MaxTags = 2
          Items = {"op", "job", "int", "more", "short", "yes", "maybe", "none", "date", "feb30", "text", "plain", "kw", "kwbad", "utf8", "latin", "nocs", "badname", "res"}
          Ends = {"end", "none", "bad", "neg", "big", "long"}
          Src <- MCSrc
INVARIANTS EndsAtEndTag Inside EveryAttribute MCDump
PROPERTIES Terminates Forward
CHECK_DEADLOCK FALSE
