SPECIFICATION Spec
CONSTANTS
  Keys <- KeySet
  NK = 3
  Results = {1, 4}
  Nodes = {3, 4}
  MaxSize = 4
  HMax = 4
  Variant = "not-moved"
INVARIANTS RightAnswers InPlace Counted
PROPERTIES StoredFound
VIEW View
CHECK_DEADLOCK FALSE
