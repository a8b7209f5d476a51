SPECIFICATION Spec
CONSTANTS
  MaxOps = 4
  Cached = TRUE
  Algo = "setdefault"
  MaxFails = 2
  Record = FALSE
  Initial <- Initials
INVARIANTS Linearizable Current
CHECK_DEADLOCK FALSE
