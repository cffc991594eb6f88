INIT GInit
NEXT GNext
CONSTANTS Vals = {0}
  Dys = {1}
  MaxLines = 0
  GenLines = 9
INVARIANTS Emit
CHECK_DEADLOCK FALSE
