SPECIFICATION Spec
CONSTANTS NItems = 3 MaxCons = 1 Durs = {4}
RelTimes <- RelOne
INVARIANTS Confluent Honoured StartsAtZero StuckIsCycle NoFalseCycle
CHECK_DEADLOCK FALSE
