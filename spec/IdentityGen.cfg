INIT GenInit
NEXT TNext
CONSTANTS MaxOps = 0
CHECK_DEADLOCK FALSE
