SPECIFICATION Spec
INVARIANT Inv
PROPERTY Stays
VIEW View
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxOps = 2
  MaxDepth = 8
  Percents <- PercentsQ
