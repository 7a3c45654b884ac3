SPECIFICATION Spec
INVARIANTS Report
CHECK_DEADLOCK FALSE
CONSTANTS
  Requests = 3
  Most = 9
