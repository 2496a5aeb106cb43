SPECIFICATION Spec
CONSTANT Small = TRUE
INVARIANTS Agrees Balanced
PROPERTY Halts
CHECK_DEADLOCK FALSE
