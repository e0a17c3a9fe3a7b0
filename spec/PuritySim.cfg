SPECIFICATION Spec
CONSTANTS
  Record = TRUE
  Len0 = 14
  NC = 2
  MaxGrow = 2
CHECK_DEADLOCK FALSE
