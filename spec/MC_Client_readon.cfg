SPECIFICATION Spec
INVARIANTS Right Waits Kept
CHECK_DEADLOCK FALSE
CONSTANTS
  Most = 3
  ReadMost = 5
  Bug = "readon"
