SPECIFICATION Spec
CONSTANTS
  N = 2
  Slots = {1, 2}
  WithIte = FALSE
INVARIANTS Inv SweepIsExact
PROPERTIES HandlesKeepMeaning OnlyCollectShrinks
CHECK_DEADLOCK FALSE
