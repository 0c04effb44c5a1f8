SPECIFICATION Spec
CONSTANTS
  Variant = "no-reduction"
  N = 2
  MaxB = 3
  Depth = 3
  Imports = 2
  Ops = {"and"}
  Arity = {2}
  Lims = {3, 4, 5, 6, 100}
INVARIANTS Right Numbered WellFormed Denotes Minimal Ordered AsDescribed
VIEW View
CHECK_DEADLOCK FALSE
