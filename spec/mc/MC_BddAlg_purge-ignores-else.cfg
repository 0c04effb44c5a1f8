SPECIFICATION Spec
CONSTANTS
  Variant = "purge-ignores-else"
  N = 2
  Slots = {1, 2, 3}
  Depth = 9
  Ops = {"proj", "ite"}
INVARIANTS RightResult RightLimit Linked Ordered Canonical Minimal RefsRight CollectedExactly MemoRight
PROPERTIES HandlesStay
VIEW View
CHECK_DEADLOCK FALSE
