SPECIFICATION Spec
CONSTANTS Most = 2 Bug = "shared"
INVARIANTS Right Ends
CHECK_DEADLOCK FALSE
