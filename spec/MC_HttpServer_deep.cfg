CONSTANTS Bug = "none" Whole = FALSE
 Most = 6
SPECIFICATION MSpec
INVARIANTS TypeOK NothingOwed
CHECK_DEADLOCK TRUE
