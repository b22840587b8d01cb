SPECIFICATION Spec
CONSTANTS
  MaxModes = 4
  MaxQuanta = 4
  Depth = 0
INVARIANTS TypeOK Undo Commute
CHECK_DEADLOCK FALSE
