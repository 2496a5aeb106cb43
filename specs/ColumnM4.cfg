SPECIFICATION Spec
CONSTANTS
  MaxLeaves = 4
  MaxPages = 1
INVARIANTS InOrder OwnPages OnlyMine OneHolder AllSeen Agrees
PROPERTY Ends
CHECK_DEADLOCK FALSE
