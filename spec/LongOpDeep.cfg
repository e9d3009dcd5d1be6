SPECIFICATION Spec
INVARIANT Inv
PROPERTY Stays
VIEW View
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxOps = 3
  MaxDepth = 9
  Percents <- PercentsQ
