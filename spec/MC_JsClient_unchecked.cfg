SPECIFICATION Spec
CONSTANTS Most = 2 Bug = "unchecked"
INVARIANTS Right Ends
CHECK_DEADLOCK FALSE
