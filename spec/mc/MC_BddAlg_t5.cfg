SPECIFICATION Spec
CONSTANTS
  Variant = "none"
  N = 3
  Slots = {1, 2, 3}
  Depth = 5
  Ops = {"proj", "and", "or", "rebase", "lim"}
INVARIANTS RightResult RightLimit Linked Ordered Canonical Minimal RefsRight CollectedExactly MemoRight
PROPERTIES HandlesStay
VIEW View
CHECK_DEADLOCK FALSE
