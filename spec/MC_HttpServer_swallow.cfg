CONSTANTS Bug = "swallow" Whole = TRUE
 Most = 5
SPECIFICATION MSpec
INVARIANTS TypeOK NothingOwed
CHECK_DEADLOCK TRUE
