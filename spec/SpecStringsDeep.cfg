SPECIFICATION Spec
CONSTANTS
  MinN = 1
  MaxN = 8
  Depth = 0
INVARIANTS TypeOK Conserved Numbers
CHECK_DEADLOCK FALSE
