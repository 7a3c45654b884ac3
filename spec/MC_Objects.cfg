SPECIFICATION SpecAll
CONSTANTS
 N = 1
 Merging = FALSE
INVARIANTS Frame Order Unknown Sizes Shape Twice
CHECK_DEADLOCK FALSE
