SPECIFICATION Spec
CONSTANTS Xs = {0, 1, 3}
 Lo <- Lows
 Width = {1, 2}
 MaxP = 3
 MaxQ = 2
INVARIANTS Agree Monotone Decided
CHECK_DEADLOCK FALSE
