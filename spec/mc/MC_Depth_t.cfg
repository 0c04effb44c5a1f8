SPECIFICATION Spec
CONSTANTS
  MaxNodes = 5
  Variant = "none"
INVARIANTS DepthIsLongestPath
CHECK_DEADLOCK FALSE
