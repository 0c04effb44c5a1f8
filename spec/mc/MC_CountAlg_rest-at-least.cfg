SPECIFICATION Spec
CONSTANTS
  Variant = "rest-at-least"
  MaxLen = 6
INVARIANTS Connectives One Bounds
CHECK_DEADLOCK FALSE
