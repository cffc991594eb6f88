SPECIFICATION Spec
CONSTANTS Depth = 2
 MaxLen = 0
 PMax = 1
 Gen = FALSE
INVARIANTS ReadsBack SlotsOnce DerivOK
PROPERTIES FixedNeverChange
CHECK_DEADLOCK FALSE
