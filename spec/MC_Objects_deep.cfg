SPECIFICATION SpecAll
CONSTANTS
 N = 2
 Merging = FALSE
INVARIANTS Frame Order Unknown Sizes Shape Twice
CHECK_DEADLOCK FALSE
