SPECIFICATION Spec
CONSTANTS
  Record = FALSE
  Len0 = 0
  NS = 3
  ND = 2
  MaxGrow = 2
INVARIANTS TypeOK
PROPERTY Kept
CHECK_DEADLOCK FALSE
