SPECIFICATION Spec
INVARIANTS NoCrash NothingWrong OwnedOnce NoneLost
CHECK_DEADLOCK FALSE
CONSTANTS
  Slots = {0,1}
  MaxCalls = 3
  Bug = "none"
