SPECIFICATION Spec
CONSTANTS
  Rec <- Yes
  Variant = "none"
  N = 2
  Slots = {1, 2, 3}
  Depth = 5
  Ops = {"proj", "ite", "and", "or"}
VIEW View
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT Printed
