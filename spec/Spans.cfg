SPECIFICATION Spec
INVARIANT Inv
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxSpans = 2
  Starts = {0, 1, 2, 3}
  Lens = {0, 1, 2, 9}
