SPECIFICATION MSpec
CONSTANTS IdLen = 1
          Variant = "good"
          MaxMessages = 4
INVARIANT SplitIndependent
INVARIANT OnceEach
