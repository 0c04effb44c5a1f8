SPECIFICATION Spec
CONSTANTS
  Variant = "none"
  N = 2
  Slots = {1, 2, 3}
  Depth = 5
  Ops = {"proj", "ite", "lim"}
INVARIANTS RightResult RightLimit Linked Ordered Canonical Minimal RefsRight CollectedExactly MemoRight
PROPERTIES HandlesStay
VIEW View
CHECK_DEADLOCK FALSE
