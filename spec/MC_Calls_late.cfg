SPECIFICATION Spec
CONSTANTS
  Most = 3
  Connections = 1
  Numbered = FALSE
  Bug = "late"
INVARIANTS Right Kept
PROPERTY Answered
CHECK_DEADLOCK FALSE
