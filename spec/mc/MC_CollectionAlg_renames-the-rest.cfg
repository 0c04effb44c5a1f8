SPECIFICATION Spec
CONSTANTS
  Variant = "renames-the-rest"
  N = 2
  MaxB = 3
  Depth = 5
  Imports = 3
  Ops = {"rm", "reb"}
  Arity = {2}
  Lims = {3, 4, 5, 6, 100}
INVARIANTS Right Numbered WellFormed Denotes Minimal Ordered AsDescribed
VIEW View
CHECK_DEADLOCK FALSE
