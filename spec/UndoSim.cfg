SPECIFICATION Spec
INVARIANT Inv
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxAtoms = 14
  MaxStacks = 3
  MaxDepth = 40
  Kinds = {"p", "m", "n"}
