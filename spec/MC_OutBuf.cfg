SPECIFICATION Spec
CONSTANTS Bytes = {1, 2}
          MaxLen = 7
          Caps = {2, 3}
INVARIANTS FixedNeverOverflows SizeIsAccepted StreamingKeepsOrder
CHECK_DEADLOCK FALSE
