SPECIFICATION Spec
CONSTANTS Most = 2 Bug = "raw"
INVARIANTS Right Ends
CHECK_DEADLOCK FALSE
