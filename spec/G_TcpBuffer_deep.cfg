SPECIFICATION Spec
CONSTANTS Sizes = {"1", "1000", "1024", "2047", "full"}
          Reactions = {"on", "okall", "okbut 1", "okbut 1500", "okpart 40", "okpart 70;okpart 50", "ok 1;on", "ok 1024;okbut 3"}
          Depth = 12
INVARIANT Emit
CHECK_DEADLOCK FALSE
