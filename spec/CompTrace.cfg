CONSTANTS
  Tick = 64
  Tol = 100
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
