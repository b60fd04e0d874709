SPECIFICATION Spec
INVARIANT Inv
CHECK_DEADLOCK FALSE
CONSTANTS
  Kinds = {"new", "set", "dump", "onew"}
  Modes = {"same"}
  Budget = 3
  Depth = 4
  Strands = 1
