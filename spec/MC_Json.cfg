SPECIFICATION Spec
CONSTANTS Variant = "good"
          MaxValues = 4
          MaxDepth = 3
          Emit = FALSE
INVARIANTS WrittenDenotes SkipEnds PrefixesInvalid
CHECK_DEADLOCK FALSE
