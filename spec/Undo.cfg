SPECIFICATION Spec
INVARIANT Inv
VIEW Live
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxAtoms = 3
  MaxStacks = 1
  MaxDepth = 7
  Kinds = {"p", "m", "n"}
