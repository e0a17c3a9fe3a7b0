SPECIFICATION Spec
CONSTANTS NItems = 3 MaxCons = 2 Durs = {0, 4}
RelTimes <- RelTwo
INVARIANTS Confluent Honoured StartsAtZero StuckIsCycle NoFalseCycle
CHECK_DEADLOCK FALSE
