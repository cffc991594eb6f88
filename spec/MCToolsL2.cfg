SPECIFICATION Spec
CONSTANTS
  Depth = 1
  Vals = {0, 1, 3}
  Nodes = 4
INVARIANTS Kept EvalThenEqual Refined Moments Below
PROPERTIES RefusedChangesNothing InputsKept
CHECK_DEADLOCK FALSE
