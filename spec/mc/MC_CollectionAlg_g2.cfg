SPECIFICATION Spec
CONSTANTS
  Rec <- Yes
  Variant = "none"
  N = 2
  MaxB = 3
  Depth = 4
  Imports = 2
  Ops = {"rm", "reb", "and"}
  Arity = {2}
  Lims = {3, 4, 5, 6, 100}
VIEW View
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT Printed
