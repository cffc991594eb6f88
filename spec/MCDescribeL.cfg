SPECIFICATION Spec
CONSTANTS MaxLen = 5
INVARIANTS Whole DerivOK ReadsBackOK
PROPERTIES FixedOK
CHECK_DEADLOCK FALSE
