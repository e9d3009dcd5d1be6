SPECIFICATION Spec
INVARIANT Sound
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxOps = 2
  MaxBlocks = 3
  Words <- WordsQ
