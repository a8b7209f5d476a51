INIT GenInit
NEXT TNext
CONSTANTS MaxOps = 3
CHECK_DEADLOCK FALSE
