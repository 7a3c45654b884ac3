SPECIFICATION Spec
CONSTANTS MostForms = 2 MostCalls = 2 Bug = "common"
INVARIANTS Right Displays
CHECK_DEADLOCK FALSE
