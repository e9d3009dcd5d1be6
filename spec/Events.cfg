SPECIFICATION Spec
INVARIANT Inv
VIEW View
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxSubs = 3
  MaxDepth = 6
  MaxEdits = 4
  Nested <- NestedQ
