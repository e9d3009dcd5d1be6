SPECIFICATION Spec
INVARIANT Sound
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxOps = 14
  MaxBlocks = 5
  Words <- WordsQ
