SPECIFICATION Spec
CONSTANTS
  Record = TRUE
  Len0 = 24
  NS = 6
  ND = 3
  MaxGrow = 2
INVARIANTS TypeOK
CHECK_DEADLOCK FALSE
