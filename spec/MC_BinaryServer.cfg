SPECIFICATION MSpec
CONSTANTS IdLen = 1
          Variant = "good"
          MaxMessages = 3
INVARIANT SplitIndependent
INVARIANT OnceEach
