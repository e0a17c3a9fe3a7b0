SPECIFICATION Spec
CONSTANTS
  Record = TRUE
  Len0 = 40
  MaxVal = 3
  Protos = {"average", "append", "trace", "thresholded", "counts"}
INVARIANTS TypeOK Whole
CHECK_DEADLOCK FALSE
