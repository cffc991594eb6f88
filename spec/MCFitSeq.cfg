SPECIFICATION SpecSeq
CONSTANTS MaxN = 2
 Workers = {1}
 Costs = {1}
 MaxSize = 3
INVARIANTS Path
PROPERTIES EndsSeq
CHECK_DEADLOCK FALSE
