SPECIFICATION Spec
CONSTANTS
  Clients = 3
  Requests = 1
  Bug = "none"
INVARIANTS Right Placed Running
PROPERTY Answered
CHECK_DEADLOCK FALSE
