SPECIFICATION Spec
CONSTANTS
  Seeds = {1}
  Sizes <- SmallSizes
  Values <- Few
INVARIANT Combines
CHECK_DEADLOCK FALSE
