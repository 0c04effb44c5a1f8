SPECIFICATION Spec
CONSTANTS
  Variant = "one-reference-only"
  N = 2
  Slots = {1, 2}
  Depth = 6
  Ops = {"proj", "not", "and", "or", "xor", "lim", "rebase"}
INVARIANTS RightResult RightLimit Linked Ordered Canonical Minimal RefsRight CollectedExactly MemoRight
PROPERTIES HandlesStay
VIEW View
CHECK_DEADLOCK FALSE
