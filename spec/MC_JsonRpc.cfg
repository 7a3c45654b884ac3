CONSTANTS Merging = FALSE
 Bug = "none"
 Most = 4
 Batch = 2
SPECIFICATION Spec
INVARIANT Right
CHECK_DEADLOCK FALSE
