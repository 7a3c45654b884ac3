SPECIFICATION Spec
CONSTANTS
  Most = 4
  Connections = 2
  Numbered = TRUE
  Bug = "none"
INVARIANTS Right Kept
PROPERTY Answered
CHECK_DEADLOCK FALSE
