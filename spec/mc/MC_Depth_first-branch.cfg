SPECIFICATION Spec
CONSTANTS
  MaxNodes = 4
  Variant = "first-branch"
INVARIANTS DepthIsLongestPath
CHECK_DEADLOCK FALSE
