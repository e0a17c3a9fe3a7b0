CONSTANTS
  N = 2
  None = None
SPECIFICATION Spec
INVARIANTS Confluent AddsUp Keeps
CHECK_DEADLOCK FALSE
