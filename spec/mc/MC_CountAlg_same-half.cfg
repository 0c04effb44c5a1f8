SPECIFICATION Spec
CONSTANTS
  Variant = "same-half"
  MaxLen = 6
INVARIANTS Connectives One Bounds
CHECK_DEADLOCK FALSE
