SPECIFICATION MSpec
CONSTANTS MaxNodes = 5
          Sep = "colons"
          NameSet = "plain"
INVARIANTS PathsLeadBack OnePlace
CHECK_DEADLOCK FALSE
