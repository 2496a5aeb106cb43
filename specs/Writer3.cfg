SPECIFICATION Spec
CONSTANTS
  MaxOps = 3
  Kinds = {"good", "src", "few", "end"}
INVARIANTS Complete MetaIff EndsOnce
PROPERTY Untouched
CHECK_DEADLOCK FALSE
