SPECIFICATION Spec
INVARIANT Inv
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxR = 3
  MaxC = 3
  MaxSize = 9
