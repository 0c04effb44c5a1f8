SPECIFICATION Spec
CONSTANTS
  MaxNodes = 4
  Variant = "none"
INVARIANTS DepthIsLongestPath
CHECK_DEADLOCK FALSE
