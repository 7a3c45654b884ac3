SPECIFICATION SpecAll
CONSTANTS
 N = 1
 Merging = TRUE
INVARIANTS Frame Order Unknown Sizes Shape Twice
CHECK_DEADLOCK FALSE
