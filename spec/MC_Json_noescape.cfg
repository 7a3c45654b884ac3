SPECIFICATION Spec
CONSTANTS Variant = "noescape"
          MaxValues = 3
          MaxDepth = 3
          Emit = FALSE
INVARIANTS WrittenDenotes SkipEnds PrefixesInvalid
CHECK_DEADLOCK FALSE
