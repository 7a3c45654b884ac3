CONSTANTS Bug = "absolute" Most = 7 Emit = FALSE
SPECIFICATION MSpec
INVARIANTS Right
CHECK_DEADLOCK FALSE
