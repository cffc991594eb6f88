SPECIFICATION Spec
CONSTANTS Cs <- LCs
 MaxP = 3
 MaxQ = 2
 Points <- LPoints
INVARIANTS Determined Oracle
CHECK_DEADLOCK FALSE
