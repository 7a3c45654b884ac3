SPECIFICATION Spec
INVARIANTS Right Waits Kept
CHECK_DEADLOCK FALSE
CONSTANTS
  Most = 4
  ReadMost = 8
  Bug = "none"
