SPECIFICATION Spec
CONSTANTS
  Variant = "none"
  MaxLen = 8
INVARIANTS Connectives One Bounds
CHECK_DEADLOCK FALSE
