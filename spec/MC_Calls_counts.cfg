SPECIFICATION Spec
CONSTANTS
  Most = 3
  Connections = 1
  Numbered = FALSE
  Bug = "counts"
INVARIANTS Right Kept
PROPERTY Answered
CHECK_DEADLOCK FALSE
