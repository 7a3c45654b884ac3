SPECIFICATION TSpec
INVARIANTS TypeOK NeverOdd
POSTCONDITION Post
CHECK_DEADLOCK FALSE
