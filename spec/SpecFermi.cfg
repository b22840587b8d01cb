SPECIFICATION Spec
CONSTANT Top = 60
INVARIANTS NatOps HalfLn Addition Logarithm Decreasing
CHECK_DEADLOCK FALSE
