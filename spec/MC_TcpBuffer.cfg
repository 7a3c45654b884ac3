SPECIFICATION FairSpec
CONSTANTS MaxStream = 14
          Chunks = {1, 2, 3, 5}
INVARIANTS TypeOK InOrder NeverEmpty
PROPERTIES Monotone ClosedIsFinal Progress
CHECK_DEADLOCK FALSE
