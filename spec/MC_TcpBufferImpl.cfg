SPECIFICATION Spec
CONSTANTS MaxStream = 20
          ReadMax = 4
          ArraySize = 6
INVARIANTS Content SpaceUsable
PROPERTY Refines
CHECK_DEADLOCK FALSE
