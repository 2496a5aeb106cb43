SPECIFICATION Spec
CONSTANTS
  MaxLeaves = 3
  MaxPages = 2
INVARIANTS InOrder OwnPages OnlyMine OneHolder AllSeen Agrees
PROPERTY Ends
CHECK_DEADLOCK FALSE
