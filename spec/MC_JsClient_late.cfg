SPECIFICATION Spec
CONSTANTS Most = 2 Bug = "late"
INVARIANTS Right Ends
CHECK_DEADLOCK FALSE
