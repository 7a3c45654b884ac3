SPECIFICATION TSpec
INVARIANT TypeOK
POSTCONDITION Post
CHECK_DEADLOCK FALSE
