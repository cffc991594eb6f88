SPECIFICATION Spec
CONSTANTS W = 2
 Out = 2
INVARIANTS FoundInside FoundBetter FoundDomain NeverOutside Optimal
PROPERTIES FixedStay
CHECK_DEADLOCK FALSE
