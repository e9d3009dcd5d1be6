SPECIFICATION Spec
INVARIANT Inv
PROPERTY Mono
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxLen = 5
  MaxIns = 2
  MaxSplice = 4
