SPECIFICATION GSpec
CONSTANTS
  PageSize = 3
  MaxPages = 2
  MaxHandles = 1
  Variant = "none"
VIEW View
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT Printed
