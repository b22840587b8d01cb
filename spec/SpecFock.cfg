SPECIFICATION Spec
CONSTANT MaxN = 5
INVARIANTS Anticommute NormalOrdered ClosedForm
CHECK_DEADLOCK FALSE
