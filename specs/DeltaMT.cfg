SPECIFICATION Spec
CONSTANTS
  MaxCount = 30
  MaxMinis = 4
  Slots = 2
  Real = "thorough"
INVARIANTS Placed Consumed
PROPERTY All
CHECK_DEADLOCK FALSE
