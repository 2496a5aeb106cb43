SPECIFICATION Spec
CONSTANTS
  MaxLen = 5
  MaxKids = 3
INVARIANTS Decides Complete Counts DepthsAgree
PROPERTY Ends
CHECK_DEADLOCK FALSE
