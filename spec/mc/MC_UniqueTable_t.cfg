SPECIFICATION Spec
CONSTANTS
  Keys <- KeySet
  NK = 5
  MinSize = 4
  MaxSize = 16
  HMax = 6
  MinFill = 8
  Variant = "none"
INVARIANTS LookupExact AllStored LeftRight OnePerKey Sized
PROPERTIES Implements
VIEW NoAnswer
CHECK_DEADLOCK FALSE
