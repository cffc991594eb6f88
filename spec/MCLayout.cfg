SPECIFICATION Spec
CONSTANTS Depth = 1
 MaxLen = 0
 PMax = 2
 Gen = FALSE
INVARIANTS ReadsBack SlotsOnce DerivOK
PROPERTIES FixedNeverChange
CHECK_DEADLOCK FALSE
