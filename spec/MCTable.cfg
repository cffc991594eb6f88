SPECIFICATION Spec
CONSTANTS Big = FALSE
CONSTRAINT Few
INVARIANTS OnceOneToOne Refines SelfValue AllAt LoadsWhole
PROPERTY Isolation
CHECK_DEADLOCK FALSE
