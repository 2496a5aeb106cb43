CONSTANTS MaxN = 3
SPECIFICATION Spec
INVARIANTS IsRows BytesSay AllUsed
PROPERTY Finishes
CHECK_DEADLOCK FALSE
