SPECIFICATION Spec
CONSTANTS
  NSs <- c_ns1
  Own = "me@x"
  Accts = {"a@x"}
  PDevs = {"d1"}
  ODevs = {}
  Ops <- c_sess
  FKinds = {}
  Levels = {"trusted"}
  DecAll = {"trusted"}
  LabelSet = {"~"}
  Kinds = {"new", "next", "reply", "replay"}
  Flags = {"badekm", "badpayload"}
  Thr = {99}
  IkVars = {0}
  Start = "live"
  MaxSteps = 4
  Record = FALSE
  Isolation = FALSE
INVARIANTS Inv Merge Dead Confirmed Owed Beyond Stocked
CHECK_DEADLOCK FALSE
