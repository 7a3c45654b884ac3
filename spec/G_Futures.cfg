SPECIFICATION Spec
INVARIANTS Report
CHECK_DEADLOCK FALSE
CONSTANTS
  Slots = {0,1}
  Most = 5
