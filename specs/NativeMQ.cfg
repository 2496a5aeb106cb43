CONSTANTS MaxLen = 2
SPECIFICATION Spec
INVARIANTS Bounds Total
CHECK_DEADLOCK FALSE
