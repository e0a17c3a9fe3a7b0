SPECIFICATION Spec2
CONSTANTS
  Record = TRUE
  Full = TRUE
  Len0 = 40
CHECK_DEADLOCK FALSE
