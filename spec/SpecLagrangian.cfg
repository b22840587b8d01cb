SPECIFICATION Spec
CONSTANTS
  Seeds = {1, 2}
  Sizes <- SmallSizes
INVARIANTS Linear Stationary LambdaBlocks
CHECK_DEADLOCK FALSE
