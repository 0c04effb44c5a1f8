SPECIFICATION Spec
CONSTANTS
  Rec <- Yes
  Variant = "none"
  N = 2
  Slots = {1, 2}
  Depth = 6
  Ops = {"proj", "not", "and", "xor"}
VIEW View
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT Printed
