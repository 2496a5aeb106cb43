CONSTANTS MaxN = 5
SPECIFICATION Spec
INVARIANTS IsRows BytesSay AllUsed
PROPERTY Finishes
CHECK_DEADLOCK FALSE
