SPECIFICATION Spec
CONSTANTS
  Most = 3
  Connections = 2
  Numbered = FALSE
  Bug = "none"
INVARIANTS Right Kept
PROPERTY Answered
CHECK_DEADLOCK FALSE
