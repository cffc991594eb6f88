SPECIFICATION Spec
CONSTANTS MaxFiles = 99
 MaxLen = 12
 Gen = TRUE
CONSTRAINT GBound
INVARIANTS Emit
CHECK_DEADLOCK FALSE
