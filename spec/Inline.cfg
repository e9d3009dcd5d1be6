SPECIFICATION Spec
INVARIANT Inv
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxItems = 4
  Kinds <- KindsQ
