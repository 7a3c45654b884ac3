CONSTANTS Merging = FALSE
 Bug = "merge"
SPECIFICATION MSpec
INVARIANT Right
CHECK_DEADLOCK FALSE
