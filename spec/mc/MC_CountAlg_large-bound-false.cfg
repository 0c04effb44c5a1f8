SPECIFICATION Spec
CONSTANTS
  Variant = "large-bound-false"
  MaxLen = 6
INVARIANTS Connectives One Bounds
CHECK_DEADLOCK FALSE
