INIT Init
NEXT GNext
CONSTANTS MaxLen = 2
INVARIANTS Emit RoundTrip IsoTrip
CHECK_DEADLOCK FALSE
