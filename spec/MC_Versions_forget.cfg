CONSTANTS Readers = {1, 2} Bug = "forget" Most = 3 Reloads = 2
SPECIFICATION MSpec
INVARIANTS NeverStuck
CHECK_DEADLOCK FALSE
