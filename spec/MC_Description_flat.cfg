SPECIFICATION MSpec
CONSTANTS
  NameSet = "plain"
  Flat = TRUE
  MaxNodes = 3
INVARIANTS RightForItself RightForNoOther PathsLead
CHECK_DEADLOCK FALSE
