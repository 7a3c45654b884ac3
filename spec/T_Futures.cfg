SPECIFICATION TSpec
POSTCONDITION Post
CHECK_DEADLOCK FALSE
CONSTANTS
  Slots = {0,1,2,3,4}
