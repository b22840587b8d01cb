SPECIFICATION CompareSpec
CONSTANTS
  MinN = 1
  MaxN = 4
  Depth = 0
INVARIANTS TypeOK Algebra Conserved Numbers Compare
CHECK_DEADLOCK FALSE
