SPECIFICATION Spec
CONSTANTS
  Record = TRUE
  Vals = {0, 1, 2}
  Params = {"g1.p", "g1.q", "g2.p", "g1.sub.p", "g1.sub.deep.p"}
  Len0 = 16
CHECK_DEADLOCK FALSE
