SPECIFICATION TSpec
CONSTANTS Aspect = "rows"
CHECK_DEADLOCK FALSE
