SPECIFICATION Spec
CONSTANTS
  Record = FALSE
  Len0 = 0
  Used = {9, 10, 12}
  Most = 2
INVARIANTS Functional InEffect
PROPERTY Keeps
CHECK_DEADLOCK FALSE
