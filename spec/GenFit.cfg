SPECIFICATION SpecGen
CONSTANTS MaxN = 6
 Workers = {2, 3, 4}
 Costs = {1, 2, 3}
 MaxSize = 1
INVARIANTS Emit
CHECK_DEADLOCK FALSE
