SPECIFICATION Spec
INVARIANTS NoCrash NothingWrong OwnedOnce NoneLost
CHECK_DEADLOCK FALSE
CONSTANTS
  Slots = {0,1,2}
  MaxCalls = 4
  Bug = "none"
