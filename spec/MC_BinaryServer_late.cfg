SPECIFICATION MSpec
CONSTANTS IdLen = 1
          Variant = "late"
          MaxMessages = 2
INVARIANT SplitIndependent
INVARIANT OnceEach
