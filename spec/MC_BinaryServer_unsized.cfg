SPECIFICATION MSpec
CONSTANTS IdLen = 1
          Variant = "unsized"
          MaxMessages = 2
INVARIANT SplitIndependent
INVARIANT OnceEach
