INIT MCInit
NEXT Scan
CONSTANTS N = 0
INVARIANTS ScanExact Reflexive Symmetric
CHECK_DEADLOCK FALSE
