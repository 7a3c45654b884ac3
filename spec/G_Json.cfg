SPECIFICATION Spec
CONSTANTS Variant = "good"
          MaxValues = 3
          MaxDepth = 3
          Emit = TRUE
INVARIANTS WrittenDenotes Report
CHECK_DEADLOCK FALSE
