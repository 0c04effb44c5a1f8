SPECIFICATION Spec
CONSTANTS
  N = 2
  Slots = {1}
  WithIte = FALSE
INVARIANTS Inv SweepIsExact
PROPERTIES HandlesKeepMeaning OnlyCollectShrinks
CHECK_DEADLOCK FALSE
