CONSTANTS Bug = "none" Most = 7 Emit = TRUE
SPECIFICATION MSpec
INVARIANTS Report
CHECK_DEADLOCK FALSE
