SPECIFICATION Spec
CONSTANTS
  P = 5
  G = 2
  R0 = 1
  RMax = 4
  NB = 3
  MaxFails = 5
  Cap = 40
INVARIANTS NotEarly NotLate NothingAfterPurge Alternates
PROPERTY Published
CHECK_DEADLOCK FALSE
