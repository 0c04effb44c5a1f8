SPECIFICATION Spec
CONSTANTS
  Variant = "none"
  N = 2
  MaxB = 4
  Depth = 5
  Imports = 3
  Ops = {"and", "rm", "reb"}
  Arity = {2}
  Lims = {3, 4, 5, 6, 100}
INVARIANTS Right Numbered WellFormed Denotes Minimal Ordered AsDescribed
VIEW View
CHECK_DEADLOCK FALSE
