SPECIFICATION Spec
CONSTANTS Dims = {1, 2, 3, 4}
 K = 3
 Steps = 3
 Coefs = {0, 2}
 Sizes = {0, 1, 2}
INVARIANTS ValueOK
PROPERTIES Independent Kept
CHECK_DEADLOCK FALSE
