SPECIFICATION Spec
CONSTANTS
  Variant = "none"
  MaxLen = 12
INVARIANTS Connectives One Bounds
CHECK_DEADLOCK FALSE
