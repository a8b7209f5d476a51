SPECIFICATION Spec
CONSTANTS
  NSs <- c_ns2
  Own = "me@x"
  Accts = {"a@x"}
  PDevs = {"d1"}
  ODevs = {"d7"}
  Ops <- c_own
  FKinds = {"ul", "ub", "dl"}
  Levels = {"trusted"}
  DecAll = {"trusted"}
  LabelSet = {"~", "L:p"}
  Kinds = {"new"}
  Flags = {}
  Thr = {99}
  IkVars = {0}
  Start = "ready"
  MaxSteps = 3
  Record = FALSE
  Isolation = FALSE
INVARIANTS Inv Merge Dead Confirmed Owed Beyond Stocked
CHECK_DEADLOCK FALSE
