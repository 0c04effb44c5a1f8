SPECIFICATION Spec
CONSTANTS
  Variant = "none"
  N = 3
  MaxB = 2
  Depth = 3
  Imports = 1
  Ops = {"or", "reb"}
  Arity = {2}
  Lims = {3, 4, 5, 6, 100}
INVARIANTS Right Numbered WellFormed Denotes Minimal Ordered AsDescribed
VIEW View
CHECK_DEADLOCK FALSE
