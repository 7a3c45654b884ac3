SPECIFICATION Spec
CONSTANTS MostForms = 2 MostCalls = 3 Bug = ""
INVARIANTS Right Displays
CHECK_DEADLOCK FALSE
