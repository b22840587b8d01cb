SPECIFICATION Spec
CONSTANT Top = 640
INVARIANTS NatOps HalfLn Addition Logarithm Decreasing
CHECK_DEADLOCK FALSE
