SPECIFICATION Spec
CONSTANTS Most = 3 Bug = ""
INVARIANTS Right Ends
CHECK_DEADLOCK FALSE
