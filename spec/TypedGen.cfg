INIT GenInit
NEXT Next
CHECK_DEADLOCK FALSE
