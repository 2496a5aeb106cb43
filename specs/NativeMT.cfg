CONSTANTS MaxLen = 3
SPECIFICATION Spec
INVARIANTS Bounds Total
CHECK_DEADLOCK FALSE
