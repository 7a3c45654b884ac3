SPECIFICATION MSpec
CONSTANTS
  NameSet = "plain"
  Flat = FALSE
  MaxNodes = 4
INVARIANTS RightForItself RightForNoOther PathsLead
CHECK_DEADLOCK FALSE
