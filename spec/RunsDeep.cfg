SPECIFICATION Spec
INVARIANT Inv
PROPERTY Mono
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxLen = 6
  MaxIns = 2
  MaxSplice = 6
