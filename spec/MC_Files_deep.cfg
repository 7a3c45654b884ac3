CONSTANTS Bug = "none" Most = 10 Emit = FALSE
SPECIFICATION MSpec
INVARIANTS Right
CHECK_DEADLOCK FALSE
