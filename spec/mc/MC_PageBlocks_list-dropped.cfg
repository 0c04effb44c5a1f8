SPECIFICATION Spec
CONSTANTS
  BlockSize = 3
  MaxBlocks = 1
  Variant = "list-dropped"
INVARIANTS Empty Blocks FreeList PInv
PROPERTIES Exclusive
CHECK_DEADLOCK FALSE
