SPECIFICATION Spec
CONSTANTS Rows <- Round
 Rhs = {0, 1}
 M = 4
 Costs <- Costs0
 Sizes = {1, 3}
INVARIANTS Correct Kept
PROPERTIES Ends
CHECK_DEADLOCK FALSE
