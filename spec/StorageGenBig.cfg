SPECIFICATION Spec
CONSTANTS
  MaxOps = 4
  Cached = TRUE
  Algo = "setdefault"
  MaxFails = 3
  Record = TRUE
  Initial <- OneInitial
INVARIANTS Linearizable Current Emit
CHECK_DEADLOCK FALSE
