SPECIFICATION Spec
INVARIANT Inv
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxItems = 5
  Kinds <- KindsD
