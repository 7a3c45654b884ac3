CONSTANTS Merging = FALSE
 Bug = "shared"
 Most = 1
 Batch = 2
SPECIFICATION Spec
INVARIANT Right
CHECK_DEADLOCK FALSE
