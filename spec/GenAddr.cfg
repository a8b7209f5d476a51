SPECIFICATION Spec
CONSTANTS
  NSs <- c_ns2
  Own = "me@x"
  Accts = {"a@x", "b@x"}
  PDevs = {"d1", "d2"}
  ODevs = {"d7"}
  Ops <- c_addr
  FKinds = {"dl", "ul", "ub", "db", "send", "dlb"}
  Levels = {"trusted", "blocked", "undecided", "auto", "first"}
  DecAll = {"trusted"}
  LabelSet = {"~", "L:p"}
  Kinds = {"new", "next", "stale", "reply", "replay"}
  Flags = {"badekm", "badpayload", "empty"}
  Thr = {99, 25}
  IkVars = {0, 1}
  Start = "ready"
  MaxSteps = 30
  Record = TRUE
  Isolation = FALSE
CHECK_DEADLOCK FALSE
