SPECIFICATION Spec
CONSTANTS
  Seeds = {1}
  Sizes <- SmallPairs
INVARIANT Extensive
CHECK_DEADLOCK FALSE
