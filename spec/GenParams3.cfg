INIT Init
NEXT GNext
CONSTANTS MaxLen = 3
INVARIANTS Emit RoundTrip IsoTrip
CHECK_DEADLOCK FALSE
