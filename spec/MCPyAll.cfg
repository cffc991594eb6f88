SPECIFICATION ASpec
CONSTANTS MaxLen = 3
INVARIANTS PartsSeen Pointwise FailKeeps Shapes
PROPERTIES Frame SetThenGet SaveThenLoad LoadsSame
CHECK_DEADLOCK FALSE
