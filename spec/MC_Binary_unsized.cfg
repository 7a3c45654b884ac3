SPECIFICATION Spec
CONSTANTS Variant = "unsized"
          MaxLen = 2
          Depth = 1
INVARIANTS Back Noticed
CHECK_DEADLOCK FALSE
