SPECIFICATION Spec
CONSTANTS
  NSs <- c_ns2
  Own = "me@x"
  Accts = {"a@x"}
  PDevs = {"d1", "d2"}
  ODevs = {"d7"}
  Ops <- c_trust
  FKinds = {}
  Levels = {"trusted", "blocked", "undecided", "martian", "first", "auto"}
  DecAll = {"~", "trusted", "blocked", "undecided", "martian", "first", "auto"}
  LabelSet = {"~"}
  Kinds = {"new"}
  Flags = {}
  Thr = {99}
  IkVars = {0, 1}
  Start = "ready"
  MaxSteps = 4
  Record = FALSE
  Isolation = FALSE
INVARIANTS Inv Merge Dead Confirmed Owed Beyond Stocked
CHECK_DEADLOCK FALSE
