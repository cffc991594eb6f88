SPECIFICATION Spec
CONSTANTS Cs <- QCs
 MaxP = 3
 MaxQ = 2
 Points <- QPoints
INVARIANTS Determined Oracle
CHECK_DEADLOCK FALSE
