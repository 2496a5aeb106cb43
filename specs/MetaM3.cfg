SPECIFICATION Spec
CONSTANTS
  MaxGroups = 3
  MaxOps = 3
INVARIANTS InOrder OfTheFile OnlyFilters
PROPERTY Shrinks
CHECK_DEADLOCK FALSE
