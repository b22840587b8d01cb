SPECIFICATION Spec
CONSTANTS
  Seeds = {1, 2}
  Sizes <- MorePairs
INVARIANT Extensive
CHECK_DEADLOCK FALSE
