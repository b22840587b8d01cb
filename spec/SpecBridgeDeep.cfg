SPECIFICATION Spec
CONSTANT Seeds = {1, 2}
CONSTANT Sizes <- MoreSizes
INVARIANT Shifted
INVARIANT Reached
CHECK_DEADLOCK FALSE
