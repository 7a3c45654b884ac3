SPECIFICATION MSpec
CONSTANTS MaxNodes = 4
          Sep = "dot"
          NameSet = "plain"
INVARIANTS PathsLeadBack OnePlace
CHECK_DEADLOCK FALSE
