SPECIFICATION Spec
CONSTANT MaxWords = 6
INVARIANTS Grammar RoundTrip
PROPERTY Stable
CHECK_DEADLOCK FALSE
