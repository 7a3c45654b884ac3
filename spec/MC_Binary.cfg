SPECIFICATION Spec
CONSTANTS Variant = "good"
          MaxLen = 2
          Depth = 2
INVARIANTS Back Noticed
CHECK_DEADLOCK FALSE
