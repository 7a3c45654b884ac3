CONSTANTS Merging = FALSE
 Bug = "none"
SPECIFICATION MSpec
INVARIANT Right
CHECK_DEADLOCK FALSE
