CONSTANTS Readers = {1, 2, 3} Bug = "none" Most = 4 Reloads = 2
SPECIFICATION MSpec
INVARIANTS NeverStuck
CHECK_DEADLOCK FALSE
