SPECIFICATION Spec
CONSTANTS MaxLen = 3
INVARIANTS Whole DerivOK ReadsBackOK
PROPERTIES FixedOK
CHECK_DEADLOCK FALSE
