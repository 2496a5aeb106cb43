CONSTANT LANES = 16
SPECIFICATION Spec
INVARIANTS Layout RoundTrip ByteLevel
CHECK_DEADLOCK FALSE
