SPECIFICATION Spec
CONSTANTS MaxLen = 0
INVARIANTS TypeOK Closed
PROPERTIES NoLoss
CHECK_DEADLOCK FALSE
