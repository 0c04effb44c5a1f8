SPECIFICATION Spec
CONSTANTS
  BlockSize = 3
  MaxBlocks = 1
  Variant = "first-slot-kept"
INVARIANTS Empty Blocks FreeList PInv
PROPERTIES Exclusive
CHECK_DEADLOCK FALSE
