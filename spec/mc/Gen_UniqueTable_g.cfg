SPECIFICATION GSpec
CONSTANTS
  Keys <- KeySet
  NK = 5
  MinSize = 4
  MaxSize = 8
  HMax = 2
  MinFill = 8
  Variant = "none"
VIEW GView
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT Printed
