SPECIFICATION Spec
CONSTANTS
  MaxOps = 4
  Cached = FALSE
  Algo = "setdefault"
  MaxFails = 2
  Record = FALSE
  Initial <- Initials
INVARIANTS Linearizable Current
CHECK_DEADLOCK FALSE
