SPECIFICATION MSpec
CONSTANTS
  NameSet = "plain"
  Flat = FALSE
  MaxNodes = 5
INVARIANTS RightForItself RightForNoOther PathsLead
CHECK_DEADLOCK FALSE
