SPECIFICATION Spec
CONSTANTS
  Record = FALSE
  Len0 = 0
  MaxVal = 2
  Protos = {"append"}
INVARIANTS TypeOK Whole
PROPERTY Fresh
CONSTRAINT Small
CHECK_DEADLOCK FALSE
