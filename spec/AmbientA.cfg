SPECIFICATION Spec
INVARIANT Inv
CHECK_DEADLOCK FALSE
CONSTANTS
  Kinds = {"new", "miss", "upd", "set", "dump", "onew", "odump"}
  Modes = {"same"}
  Budget = 2
  Depth = 3
  Strands = 1
