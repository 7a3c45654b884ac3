CONSTANTS Readers = {0, 1, 2, 3, 4, 5, 6, 7}
SPECIFICATION TSpec
POSTCONDITION Post
CHECK_DEADLOCK FALSE
