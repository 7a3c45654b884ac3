SPECIFICATION Spec
CONSTANTS
  Clients = 2
  Requests = 1
  Bug = "cut"
INVARIANTS Right
CHECK_DEADLOCK FALSE
