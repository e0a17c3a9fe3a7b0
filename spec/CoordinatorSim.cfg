SPECIFICATION Spec
CONSTANTS
  Record = TRUE
  Len0 = 24
  Names = {"a", "b", "c"}
  Absent = {"z"}
  MaxInstr = 3
  ArgsUsed = {"nodata", "empty", "bad", "noattr", "x0", "x1", "x2", "y0", "xy", "r0", "r1", "r2"}
CHECK_DEADLOCK FALSE
