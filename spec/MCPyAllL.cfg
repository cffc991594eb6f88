SPECIFICATION ASpec
CONSTANTS MaxLen = 4
INVARIANTS PartsSeen Pointwise FailKeeps Shapes
PROPERTIES Frame SetThenGet SaveThenLoad LoadsSame
CHECK_DEADLOCK FALSE
