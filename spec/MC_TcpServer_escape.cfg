SPECIFICATION Spec
CONSTANTS
  Clients = 2
  Requests = 1
  Bug = "escape"
INVARIANTS Right
PROPERTY Answered
CHECK_DEADLOCK FALSE
