SPECIFICATION Spec
CONSTANTS
  Variant = "none"
  N = 2
  MaxB = 3
  Depth = 4
  Imports = 2
  Ops = {"rm", "reb", "and"}
  Arity = {2}
  Lims = {3, 4, 5, 6, 100}
INVARIANTS Right Numbered WellFormed Denotes Minimal Ordered AsDescribed
VIEW View
CHECK_DEADLOCK FALSE
