SPECIFICATION Spec
CONSTANTS Variant = "good"
          MaxChars = 5
          Emit = FALSE
INVARIANTS Means Clean AsField
CHECK_DEADLOCK FALSE
