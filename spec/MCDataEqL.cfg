INIT MCInit
NEXT Scan
CONSTANTS N = 2
INVARIANTS ScanExact Reflexive Symmetric
CHECK_DEADLOCK FALSE
