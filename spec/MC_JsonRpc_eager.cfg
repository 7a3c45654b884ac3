CONSTANTS Merging = FALSE
 Bug = "eager"
 Most = 4
 Batch = 0
SPECIFICATION Spec
INVARIANT Right
CHECK_DEADLOCK FALSE
