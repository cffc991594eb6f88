INIT GInit
NEXT GNext
CONSTANTS Files = {"f", "g"}
  MaxLen = 7
INVARIANTS Emit
CHECK_DEADLOCK FALSE
