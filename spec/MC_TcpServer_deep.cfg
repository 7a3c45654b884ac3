SPECIFICATION Spec
CONSTANTS
  Clients = 3
  Requests = 2
  Bug = "none"
INVARIANTS Right Placed Running
CHECK_DEADLOCK FALSE
