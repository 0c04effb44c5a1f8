SPECIFICATION GSpec
CONSTANTS
  BlockSize = 4
  MaxBlocks = 2
  Variant = "none"
VIEW GView
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT Printed
