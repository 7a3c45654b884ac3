SPECIFICATION Spec
CONSTANTS Most = 2 Bug = ""
INVARIANTS Right Ends
CHECK_DEADLOCK FALSE
