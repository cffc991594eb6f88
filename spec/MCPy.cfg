INIT Init
NEXT Next
CONSTANTS MaxLen = 40
INVARIANTS PartsSeen Pointwise FailKeeps Shapes Emit
CHECK_DEADLOCK FALSE
