SPECIFICATION Spec
CONSTANTS
  MaxGroups = 3
  MaxOps = 2
INVARIANTS InOrder OfTheFile OnlyFilters
PROPERTY Shrinks
CHECK_DEADLOCK FALSE
