SPECIFICATION Spec
CONSTANTS
  Variant = "none"
  N = 3
  MaxB = 3
  Depth = 8
  Imports = 1
  Ops = {"build", "rm"}
  Arity = {2}
  Lims = {3, 4, 5, 6, 100}
INVARIANTS Right Numbered WellFormed Denotes Minimal Ordered AsDescribed
VIEW View
CHECK_DEADLOCK FALSE
