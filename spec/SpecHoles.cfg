SPECIFICATION Spec
CONSTANTS
  Seeds = {1}
  Sizes <- SmallSizes
  Weights = {1}
INVARIANT SameResults
INVARIANT Twice
CHECK_DEADLOCK FALSE
