SPECIFICATION TSpec
POSTCONDITION Post
CHECK_DEADLOCK FALSE
CONSTANT Merging = FALSE
