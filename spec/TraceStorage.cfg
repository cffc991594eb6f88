SPECIFICATION TSpec
INVARIANT TraceRefines
CHECK_DEADLOCK FALSE
