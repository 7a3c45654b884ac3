CONSTANTS Merging = FALSE
 Bug = "twice"
SPECIFICATION MSpec
INVARIANT Right
CHECK_DEADLOCK FALSE
