SPECIFICATION Spec
CONSTANTS Variant = "plus"
          MaxChars = 3
          Emit = FALSE
INVARIANTS Means Clean AsField
CHECK_DEADLOCK FALSE
