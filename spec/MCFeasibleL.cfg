SPECIFICATION Spec
CONSTANTS Xs = {0, 1, 2, 3}
 Lo <- Lows
 Width = {0, 1}
 MaxP = 3
 MaxQ = 3
INVARIANTS Agree Monotone Decided
CHECK_DEADLOCK FALSE
