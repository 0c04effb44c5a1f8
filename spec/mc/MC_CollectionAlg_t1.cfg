SPECIFICATION Spec
CONSTANTS
  Variant = "none"
  N = 3
  MaxB = 3
  Depth = 3
  Imports = 2
  Ops = {"and"}
  Arity = {2}
  Lims = {5, 100}
INVARIANTS Right Numbered WellFormed Denotes Minimal Ordered AsDescribed
VIEW View
CHECK_DEADLOCK FALSE
