SPECIFICATION Spec
INVARIANT Inv
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxItems = 6
  MaxText = 6
  MaxDepth = 40
  Texts <- TextsQ
