SPECIFICATION Spec
CONSTANTS
  Record = TRUE
  Len0 = 24
  NOps = 12
  MaxHeap = 6
  MaxItems = 6
  Clocks = {"ck1", "ck2"}
INVARIANTS TypeOK Acyclic
CHECK_DEADLOCK FALSE
