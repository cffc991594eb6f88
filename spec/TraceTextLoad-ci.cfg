SPECIFICATION TSpec
CONSTANTS Aspect = "ci"
CHECK_DEADLOCK FALSE
