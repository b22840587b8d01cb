SPECIFICATION Spec
CONSTANTS
  MinN = 1
  MaxN = 7
  Depth = 0
INVARIANTS TypeOK Conserved Numbers
CHECK_DEADLOCK FALSE
