SPECIFICATION Spec
CONSTANTS Variant = "good"
          MaxChars = 4
          Emit = FALSE
INVARIANTS Means Clean AsField
CHECK_DEADLOCK FALSE
