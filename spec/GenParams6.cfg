INIT Init
NEXT GNext
CONSTANTS MaxLen = 6
INVARIANTS Emit RoundTrip IsoTrip
CHECK_DEADLOCK FALSE
