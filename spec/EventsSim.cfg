SPECIFICATION Spec
INVARIANT Inv
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxSubs = 3
  MaxDepth = 30
  MaxEdits = 14
  Nested <- NestedQ
