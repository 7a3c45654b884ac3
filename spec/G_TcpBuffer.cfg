SPECIFICATION Spec
CONSTANTS Sizes = {"1", "1000", "full"}
          Reactions = {"on", "okall", "okbut 1", "okpart 40", "okpart 70;okpart 50"}
          Depth = 3
INVARIANT Emit
CHECK_DEADLOCK FALSE
