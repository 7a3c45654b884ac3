SPECIFICATION Spec
CONSTANTS
  Most = 3
  Connections = 2
  Numbered = FALSE
  Bug = "shared"
INVARIANTS Right Kept
CHECK_DEADLOCK FALSE
