SPECIFICATION Spec
CONSTANTS
  MaxCount = 10
  MaxMinis = 2
  Slots = 2
  Real = "quick"
INVARIANTS Placed Consumed
PROPERTY All
CHECK_DEADLOCK FALSE
