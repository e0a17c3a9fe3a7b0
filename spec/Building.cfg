SPECIFICATION Spec
CONSTANTS
  Record = FALSE
  Len0 = 0
  NOps = 1
  MaxHeap = 3
  MaxItems = 2
  Clocks = {"k1"}
CONSTRAINT Small
INVARIANTS TypeOK Acyclic UniqueLabels UniqueNames UniqueResources
PROPERTY Local
CHECK_DEADLOCK FALSE
