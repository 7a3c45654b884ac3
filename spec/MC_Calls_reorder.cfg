SPECIFICATION Spec
CONSTANTS
  Most = 2
  Connections = 1
  Numbered = TRUE
  Bug = "reorder"
INVARIANTS Right Kept
CHECK_DEADLOCK FALSE
