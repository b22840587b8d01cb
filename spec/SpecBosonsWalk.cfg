SPECIFICATION Walks
CONSTANTS
  MaxModes = 24
  MaxQuanta = 65536
  Depth = 60
INVARIANTS TypeOK
CHECK_DEADLOCK FALSE
