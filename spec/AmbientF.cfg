SPECIFICATION Spec
INVARIANT Inv
CHECK_DEADLOCK FALSE
CONSTANTS
  Kinds = {"new", "set", "dump"}
  Modes = {"copy"}
  Budget = 3
  Depth = 3
  Strands = 2
