SPECIFICATION Spec
CONSTANTS
  Devices = {"a", "b"}
  MaxEvents = 9
  MaxMsgs = 6
  Record = FALSE
  Dups = TRUE
  Restarts = TRUE
  Purges = TRUE
  MaxPending = 5
  RestartEvery = 1
  Burst = 0
  Window = 100
INVARIANTS Reliable Confirmed Roles Distinct
CHECK_DEADLOCK FALSE
