SPECIFICATION Spec
INVARIANT Inv
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxSpans = 2
  Starts = {0, 1, 2, 3, 4, 6}
  Lens = {0, 1, 2, 3, 4, 9}
