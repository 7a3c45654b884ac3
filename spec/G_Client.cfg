SPECIFICATION Spec
INVARIANTS Report
CHECK_DEADLOCK FALSE
CONSTANTS
  Requests = 2
  Most = 8
