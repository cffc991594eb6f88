SPECIFICATION Spec
CONSTANTS Vals = {0, 1, 2}
  MaxLen = 0
INVARIANTS Refines GetOK
PROPERTIES Isolation
CHECK_DEADLOCK FALSE
