CONSTANTS Merging = FALSE
 Bug = "none"
 Most = 5
 Batch = 3
SPECIFICATION Spec
INVARIANT Right
CHECK_DEADLOCK FALSE
