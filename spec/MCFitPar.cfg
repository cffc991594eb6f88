SPECIFICATION SpecPar
CONSTANTS MaxN = 4
 Workers = {1, 2}
 Costs = {1, 2}
 MaxSize = 1
INVARIANTS Outcome
PROPERTIES EndsPar
CHECK_DEADLOCK FALSE
