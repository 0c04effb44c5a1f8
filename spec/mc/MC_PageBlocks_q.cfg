SPECIFICATION Spec
CONSTANTS
  BlockSize = 2
  MaxBlocks = 2
  Variant = "none"
INVARIANTS Empty Blocks FreeList PInv
PROPERTIES Exclusive
CHECK_DEADLOCK FALSE
