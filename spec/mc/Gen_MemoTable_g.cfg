SPECIFICATION GSpec
CONSTANTS
  Keys <- KeySet
  NK = 4
  Results = {1, 4}
  Nodes = {3, 4}
  MaxSize = 4
  HMax = 1
  Variant = "none"
VIEW View
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT Printed
