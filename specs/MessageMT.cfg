SPECIFICATION Spec
CONSTANT Small = FALSE
INVARIANTS Agrees Balanced
PROPERTY Halts
CHECK_DEADLOCK FALSE
