SPECIFICATION Spec
CONSTANTS
  Most = 4
  Connections = 2
  Numbered = FALSE
  Bug = "none"
INVARIANTS Right Kept
PROPERTY Answered
CHECK_DEADLOCK FALSE
