SPECIFICATION Spec
CONSTANTS
  NSs <- c_ns2
  Own = "me@x"
  Accts = {"a@x"}
  PDevs = {"d1"}
  ODevs = {"d7"}
  Ops <- c_load
  FKinds = {"dl", "ul", "ub", "db"}
  Levels = {"trusted"}
  DecAll = {"trusted"}
  LabelSet = {"~"}
  Kinds = {"new"}
  Flags = {}
  Thr = {99}
  IkVars = {0}
  Start = "empty"
  MaxSteps = 3
  Record = FALSE
  Isolation = FALSE
INVARIANTS Inv Merge Dead Confirmed Owed Beyond Stocked
CHECK_DEADLOCK FALSE
