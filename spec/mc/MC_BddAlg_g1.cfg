SPECIFICATION Spec
CONSTANTS
  Rec <- Yes
  Variant = "none"
  N = 2
  Slots = {1, 2}
  Depth = 4
  Ops = {"proj", "nproj", "not", "and", "or", "xor", "lim", "rebase"}
VIEW View
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT Printed
