SPECIFICATION TSpec
CONSTANTS MaxStream = 100000000
          Chunks = {1}
INVARIANTS TypeOK InOrder
POSTCONDITION Post
CHECK_DEADLOCK FALSE
