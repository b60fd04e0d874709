SPECIFICATION Spec
INVARIANT Inv
CHECK_DEADLOCK FALSE
CONSTANTS
  Kinds = {"new", "miss", "upd", "set", "dump", "onew", "odump"}
  Modes = {"copy", "thread", "tcopy"}
  Budget = 1
  Depth = 2
  Strands = 1
