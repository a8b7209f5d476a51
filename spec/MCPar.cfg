SPECIFICATION Spec
CONSTANTS
  NSs <- c_ns1
  Own = "me@x"
  Accts = {"a@x", "b@x"}
  PDevs = {"d1"}
  ODevs = {}
  Ops <- c_par
  FKinds = {"send", "dlb"}
  Levels = {"blocked"}
  DecAll = {"trusted"}
  LabelSet = {"~"}
  Kinds = {"new", "next", "stale", "reply"}
  Flags = {}
  Thr = {99}
  IkVars = {0}
  Start = "live"
  MaxSteps = 3
  Record = FALSE
  Isolation = TRUE
INVARIANTS Inv Merge Dead Confirmed Owed Beyond Stocked
CHECK_DEADLOCK FALSE
