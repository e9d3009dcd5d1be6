SPECIFICATION Spec
INVARIANT Inv
PROPERTY Stays
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxOps = 5
  MaxDepth = 40
  Percents <- PercentsQ
