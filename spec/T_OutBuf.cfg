SPECIFICATION TSpec
CONSTANTS Bytes = {}
          MaxLen = 0
          Caps = {}
INVARIANTS FixedNeverOverflows SizeIsAccepted StreamingKeepsOrder
POSTCONDITION Post
CHECK_DEADLOCK FALSE
