SPECIFICATION Spec
CONSTANTS
  BlockSize = 3
  MaxBlocks = 1
  Variant = "not-cleared"
INVARIANTS Empty Blocks FreeList PInv
PROPERTIES Exclusive
CHECK_DEADLOCK FALSE
