SPECIFICATION Spec
CONSTANTS Variant = "plainref"
          MaxChars = 5
          Emit = FALSE
INVARIANTS Means Clean AsField
CHECK_DEADLOCK FALSE
