SPECIFICATION Spec
CONSTANTS
  MaxSeqs = 2
  Lits = {0, 1, 3, 15}
  Mlens = {4, 5, 18, 19, 20, 274}
  Ends = {12, 14, 15}
INVARIANTS Decodes Shorter
CHECK_DEADLOCK FALSE
