INIT GInit
NEXT GNext
CONSTANTS Vals = {0}
  MaxLen = 14
INVARIANTS Emit
CHECK_DEADLOCK FALSE
