SPECIFICATION Spec
CONSTANTS
  Seeds = {1, 2}
  Sizes <- MoreSizes
  Weights = {1, 3}
INVARIANT SameResults
INVARIANT Twice
CHECK_DEADLOCK FALSE
