SPECIFICATION Spec
CONSTANTS
  Record = FALSE
  Vals = {0, 1}
  Params = {"g1.p", "g1.sub.p"}
  Len0 = 0
INVARIANT TypeOK
PROPERTY Forced
CHECK_DEADLOCK FALSE
