SPECIFICATION GSpec
CONSTANTS
  BlockSize = 2
  MaxBlocks = 3
  Variant = "none"
VIEW GView
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT Printed
