SPECIFICATION MSpec
CONSTANTS MaxNodes = 4
          Sep = "colons"
          NameSet = "plain"
INVARIANTS PathsLeadBack OnePlace
CHECK_DEADLOCK FALSE
