SPECIFICATION Spec
INVARIANT Inv
VIEW View
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxSubs = 3
  MaxDepth = 8
  MaxEdits = 4
  Nested <- NestedQ
