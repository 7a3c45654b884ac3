SPECIFICATION MSpec
CONSTANTS
  NameSet = "dots"
  Flat = FALSE
  MaxNodes = 4
INVARIANTS RightForItself RightForNoOther PathsLead
CHECK_DEADLOCK FALSE
