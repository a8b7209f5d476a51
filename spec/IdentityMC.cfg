SPECIFICATION Spec
CONSTANTS MaxOps = 7
INVARIANTS Form Stable
PROPERTIES Kept
CHECK_DEADLOCK FALSE
