SPECIFICATION Spec
INVARIANT Inv
VIEW Live
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxAtoms = 4
  MaxStacks = 2
  MaxDepth = 7
  Kinds = {"p", "m", "n"}
