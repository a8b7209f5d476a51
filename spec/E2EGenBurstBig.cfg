SPECIFICATION Spec
CONSTANTS
  Devices = {"a", "b", "c"}
  MaxEvents = 60
  MaxMsgs = 200
  Record = TRUE
  Dups = TRUE
  Restarts = TRUE
  Purges = TRUE
  MaxPending = 60
  RestartEvery = 5
  Burst = 8
  Window = 18
INVARIANTS Reliable Confirmed Roles Distinct Emit
CHECK_DEADLOCK FALSE
