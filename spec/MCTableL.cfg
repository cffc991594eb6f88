SPECIFICATION Spec
CONSTANTS Big = TRUE
CONSTRAINT Few
INVARIANTS OnceOneToOne Refines SelfValue AllAt LoadsWhole
PROPERTY Isolation
CHECK_DEADLOCK FALSE
