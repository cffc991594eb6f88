SPECIFICATION Spec
CONSTANTS
  Depth = 1
  Vals = {0, 2}
  Nodes = 3
INVARIANTS Kept EvalThenEqual Refined Moments Below
PROPERTIES RefusedChangesNothing InputsKept
CHECK_DEADLOCK FALSE
