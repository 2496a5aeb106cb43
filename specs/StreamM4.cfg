SPECIFICATION Spec
CONSTANT MaxPages = 4
INVARIANTS Isolated OnePlace
CHECK_DEADLOCK FALSE
