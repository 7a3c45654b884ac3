SPECIFICATION TSpec
CONSTANT MaxDepth = 3
POSTCONDITION Post
CHECK_DEADLOCK FALSE
