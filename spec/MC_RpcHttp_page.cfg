CONSTANTS Merging = FALSE
 Bug = "page"
SPECIFICATION MSpec
INVARIANT Right
CHECK_DEADLOCK FALSE
