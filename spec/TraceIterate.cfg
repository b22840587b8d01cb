SPECIFICATION Spec
INVARIANT SpinAdapted
CHECK_DEADLOCK FALSE
