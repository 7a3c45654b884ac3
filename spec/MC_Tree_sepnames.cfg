SPECIFICATION MSpec
CONSTANTS MaxNodes = 4
          Sep = "dot"
          NameSet = "separators"
INVARIANTS PathsLeadBack OnePlace
CHECK_DEADLOCK FALSE
