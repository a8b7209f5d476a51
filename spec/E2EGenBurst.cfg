SPECIFICATION Spec
CONSTANTS
  Devices = {"a", "b", "c"}
  MaxEvents = 20
  MaxMsgs = 60
  Record = TRUE
  Dups = TRUE
  Restarts = TRUE
  Purges = TRUE
  MaxPending = 40
  RestartEvery = 5
  Burst = 6
  Window = 14
INVARIANTS Reliable Confirmed Roles Distinct Emit
CHECK_DEADLOCK FALSE
