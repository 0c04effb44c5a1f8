SPECIFICATION Spec
CONSTANTS
  Variant = "split-without-all-left"
  MaxLen = 6
INVARIANTS Connectives One Bounds
CHECK_DEADLOCK FALSE
