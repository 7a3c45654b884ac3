SPECIFICATION Spec
CONSTANTS MostForms = 2 MostCalls = 2 Bug = "stale"
INVARIANTS Right Displays
CHECK_DEADLOCK FALSE
