SPECIFICATION Spec
CONSTANTS
  Seeds = {1, 2, 3}
  Sizes <- MoreSizes
INVARIANTS Linear Stationary LambdaBlocks
CHECK_DEADLOCK FALSE
