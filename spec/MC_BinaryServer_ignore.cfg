SPECIFICATION MSpec
CONSTANTS IdLen = 1
          Variant = "ignore"
          MaxMessages = 2
INVARIANT SplitIndependent
INVARIANT OnceEach
