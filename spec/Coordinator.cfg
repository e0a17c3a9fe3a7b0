SPECIFICATION Spec
CONSTANTS
  Record = FALSE
  Len0 = 0
  Names = {"a", "b"}
  Absent = {"z"}
  MaxInstr = 2
  ArgsUsed = {"nodata", "bad", "noattr", "x0", "x2"}
INVARIANTS Distinct PreparedIsPrepared LastIsLast NeverBad NoAbsent RunsPrepared
CHECK_DEADLOCK FALSE
