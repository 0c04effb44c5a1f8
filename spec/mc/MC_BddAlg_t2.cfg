SPECIFICATION Spec
CONSTANTS
  Variant = "none"
  N = 2
  Slots = {1, 2}
  Depth = 7
  Ops = {"proj", "not", "and", "or", "xor"}
INVARIANTS RightResult RightLimit Linked Ordered Canonical Minimal RefsRight CollectedExactly MemoRight
PROPERTIES HandlesStay
VIEW View
CHECK_DEADLOCK FALSE
