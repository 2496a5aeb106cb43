SPECIFICATION Spec
CONSTANT MaxPages = 3
INVARIANTS Isolated OnePlace
CHECK_DEADLOCK FALSE
