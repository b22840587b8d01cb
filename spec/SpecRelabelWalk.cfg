SPECIFICATION SpecWalk
CONSTANTS
  Depth = 10
  Small = {}
CHECK_DEADLOCK FALSE
