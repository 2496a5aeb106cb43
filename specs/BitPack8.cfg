CONSTANT LANES = 8
SPECIFICATION Spec
INVARIANTS Layout RoundTrip ByteLevel
CHECK_DEADLOCK FALSE
