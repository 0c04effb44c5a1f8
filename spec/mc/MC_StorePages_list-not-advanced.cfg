SPECIFICATION Spec
CONSTANTS
  PageSize = 3
  MaxPages = 2
  MaxHandles = 1
  Variant = "list-not-advanced"
INVARIANTS RefsKept FieldsKept FreeList Counted Inside RefsRight NeverTwiceInv
PROPERTIES NeverTwice Economical
VIEW View
CHECK_DEADLOCK FALSE
