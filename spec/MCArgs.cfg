SPECIFICATION Spec
CONSTANT MaxWords = 5
INVARIANTS Grammar RoundTrip
PROPERTY Stable
CHECK_DEADLOCK FALSE
