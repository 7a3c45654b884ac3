SPECIFICATION Spec
CONSTANTS Ops = {"ch 1", "ch c-1", "sv c", "sv c+1", "sp 2c", "cs 3c", "sv 0", "view", "clear", "flush"}
          Depth = 3
INVARIANT Emit
CHECK_DEADLOCK FALSE
