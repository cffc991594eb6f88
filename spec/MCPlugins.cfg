SPECIFICATION Spec
CONSTANTS MaxFiles = 2
 MaxLen = 0
 Gen = FALSE
CONSTRAINT Bound
INVARIANTS EarliestWins FoundIfThere SystemOnlyIfAsked
CHECK_DEADLOCK FALSE
