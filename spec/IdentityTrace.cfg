SPECIFICATION TSpec
CONSTANTS MaxOps = 0
CHECK_DEADLOCK FALSE
