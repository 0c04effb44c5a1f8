SPECIFICATION Spec
CONSTANTS
  MaxNodes = 4
  Variant = "shorter"
INVARIANTS DepthIsLongestPath
CHECK_DEADLOCK FALSE
