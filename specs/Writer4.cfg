SPECIFICATION Spec
CONSTANTS
  MaxOps = 4
  Kinds = {"good", "src", "few", "many", "end"}
INVARIANTS Complete MetaIff EndsOnce
PROPERTY Untouched
CHECK_DEADLOCK FALSE
