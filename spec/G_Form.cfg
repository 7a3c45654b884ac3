SPECIFICATION Spec
CONSTANTS Variant = "good"
          MaxChars = 4
          Emit = TRUE
INVARIANTS Report
CHECK_DEADLOCK FALSE
