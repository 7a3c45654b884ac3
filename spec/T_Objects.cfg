SPECIFICATION TSpec
CONSTANT Merging = FALSE
POSTCONDITION Post
CHECK_DEADLOCK FALSE
