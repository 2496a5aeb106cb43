SPECIFICATION Spec
CONSTANTS
  MaxRows = 5
  MaxPages = 4
  MaxIvs = 2
INVARIANTS Exact Once Within Same
PROPERTY Ends
CHECK_DEADLOCK FALSE
