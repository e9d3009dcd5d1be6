SPECIFICATION Spec
INVARIANT Inv
VIEW Live
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxItems = 3
  MaxText = 2
  MaxDepth = 12
  Texts <- TextsQ
