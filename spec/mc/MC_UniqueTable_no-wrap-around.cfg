SPECIFICATION Spec
CONSTANTS
  Keys <- KeySet
  NK = 4
  MinSize = 4
  MaxSize = 8
  HMax = 5
  MinFill = 8
  Variant = "no-wrap-around"
INVARIANTS LookupExact AllStored LeftRight OnePerKey Sized
PROPERTIES Implements
VIEW NoAnswer
CHECK_DEADLOCK FALSE
