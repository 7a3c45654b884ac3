CONSTANTS Bug = "none" Whole = TRUE
 Most = 6
SPECIFICATION MSpec
INVARIANTS TypeOK NothingOwed
CHECK_DEADLOCK TRUE
