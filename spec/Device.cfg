SPECIFICATION Spec2
CONSTANTS
  Record = FALSE
  Full = FALSE
  Len0 = 0
INVARIANTS Unique Exact
CHECK_DEADLOCK FALSE
