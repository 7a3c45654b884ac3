CONSTANTS Bug = "none" Whole = FALSE
 Most = 5
SPECIFICATION MSpec
INVARIANTS TypeOK NothingOwed
CHECK_DEADLOCK TRUE
