SPECIFICATION Spec
INVARIANT Inv
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxR = 4
  MaxC = 4
  MaxSize = 16
