SPECIFICATION Walks
CONSTANTS
  MinN = 5
  MaxN = 140
  Depth = 40
INVARIANTS TypeOK
CHECK_DEADLOCK FALSE
