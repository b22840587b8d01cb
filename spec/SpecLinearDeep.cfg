SPECIFICATION Spec
CONSTANTS
  Seeds = {1, 2}
  Sizes <- MoreSizes
  Values <- More
INVARIANT Combines
CHECK_DEADLOCK FALSE
