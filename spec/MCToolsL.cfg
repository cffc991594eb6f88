SPECIFICATION Spec
CONSTANTS
  Depth = 2
  Vals = {2}
  Nodes = 2
INVARIANTS Kept EvalThenEqual Refined Moments Below
PROPERTIES RefusedChangesNothing InputsKept
CHECK_DEADLOCK FALSE
