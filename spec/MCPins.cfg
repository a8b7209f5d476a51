SPECIFICATION Spec
CONSTANTS
  NSs <- c_ns2
  Own = "me@x"
  Accts = {"a@x"}
  PDevs = {"d1"}
  ODevs = {}
  Ops <- c_pins
  FKinds = {}
  Levels = {"trusted"}
  DecAll = {"trusted"}
  LabelSet = {"~"}
  Kinds = {"new", "reply"}
  Flags = {}
  Thr = {99}
  IkVars = {0, 1}
  Start = "live"
  MaxSteps = 3
  Record = FALSE
  Isolation = FALSE
INVARIANTS Inv Merge Dead Confirmed Owed Beyond Stocked
CHECK_DEADLOCK FALSE
