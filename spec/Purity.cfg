SPECIFICATION Spec
CONSTANTS
  Record = FALSE
  Len0 = 0
  NC = 2
  MaxGrow = 1
INVARIANTS TypeOK SharedFate
PROPERTY Return
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
