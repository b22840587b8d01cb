SPECIFICATION CompareSpec
CONSTANTS
  MaxModes = 3
  MaxQuanta = 3
  Depth = 0
INVARIANTS TypeOK Undo Commute Compare
CHECK_DEADLOCK FALSE
