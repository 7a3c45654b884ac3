SPECIFICATION Spec
CONSTANTS MaxLen = 14
          Caps = {1, 2, 3}
INVARIANT ViewIsContent
PROPERTY Refines
CHECK_DEADLOCK FALSE
