SPECIFICATION Spec
CONSTANTS
  MaxOps = 3
  Cached = TRUE
  Algo = "setdefault"
  MaxFails = 1
  Record = TRUE
  Initial <- OneInitial
INVARIANTS Linearizable Current Emit
CHECK_DEADLOCK FALSE
