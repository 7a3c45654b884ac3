CONSTANTS Merging = FALSE
 Bug = "plain"
SPECIFICATION MSpec
INVARIANT Right
CHECK_DEADLOCK FALSE
