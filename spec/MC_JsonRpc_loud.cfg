CONSTANTS Merging = FALSE
 Bug = "loud"
 Most = 4
 Batch = 0
SPECIFICATION Spec
INVARIANT Right
CHECK_DEADLOCK FALSE
