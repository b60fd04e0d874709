SPECIFICATION Spec
INVARIANT Inv
CHECK_DEADLOCK FALSE
CONSTANTS
  Kinds = {"new", "upd", "set", "dump"}
  Modes = {"same"}
  Budget = 2
  Depth = 2
  Strands = 2
