SPECIFICATION TSpec
CONSTANT IdLen = 4
POSTCONDITION Post
CHECK_DEADLOCK FALSE
