SPECIFICATION Spec
CONSTANTS
  Devices = {"a", "b", "c"}
  MaxEvents = 50
  MaxMsgs = 80
  Record = TRUE
  Dups = TRUE
  Restarts = TRUE
  Purges = TRUE
  MaxPending = 4
  RestartEvery = 5
  Burst = 0
  Window = 100
INVARIANTS Reliable Confirmed Roles Distinct Emit
CHECK_DEADLOCK FALSE
