SPECIFICATION Spec
CONSTANTS
  Depth = 3
  Small <- SmallSizes
INVARIANTS Composed Dual
CHECK_DEADLOCK FALSE
