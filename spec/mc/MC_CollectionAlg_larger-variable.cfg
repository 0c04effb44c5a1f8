SPECIFICATION Spec
CONSTANTS
  Variant = "larger-variable"
  N = 2
  MaxB = 3
  Depth = 4
  Imports = 2
  Ops = {"and"}
  Arity = {2, 3}
  Lims = {3, 4, 5, 6, 100}
INVARIANTS Right Numbered WellFormed Denotes Minimal Ordered AsDescribed
VIEW View
CHECK_DEADLOCK FALSE
