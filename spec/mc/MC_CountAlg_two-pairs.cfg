SPECIFICATION Spec
CONSTANTS
  Variant = "two-pairs"
  MaxLen = 6
INVARIANTS Connectives One Bounds
CHECK_DEADLOCK FALSE
