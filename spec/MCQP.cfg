SPECIFICATION Spec
CONSTANTS Rows <- Some
 Rhs = {0, 1}
 M = 3
 Costs <- Costs0
 Sizes = {1, 2}
INVARIANTS Correct Kept
PROPERTIES Ends
CHECK_DEADLOCK FALSE
