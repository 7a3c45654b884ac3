CONSTANTS Merging = FALSE
 Bug = "strict"
 Most = 4
 Batch = 0
SPECIFICATION Spec
INVARIANT Right
CHECK_DEADLOCK FALSE
