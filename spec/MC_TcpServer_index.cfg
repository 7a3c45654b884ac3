SPECIFICATION Spec
CONSTANTS
  Clients = 3
  Requests = 1
  Bug = "index"
INVARIANTS Right
CHECK_DEADLOCK FALSE
