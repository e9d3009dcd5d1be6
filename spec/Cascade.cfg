SPECIFICATION Spec
INVARIANT Sound
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxOps = 1
  MaxBlocks = 3
  Words <- WordsQ
