SPECIFICATION GSpec
CONSTANTS
  MaxNodes = 4
  Variant = "none"
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT GPrinted
