SPECIFICATION Spec
CONSTANTS
  MaxRows = 4
  MaxPages = 3
  MaxIvs = 2
INVARIANTS Exact Once Within Same
PROPERTY Ends
CHECK_DEADLOCK FALSE
