CONSTANTS
 Widths = {1, 2, 5, 8, 9, 16, 32}
 MaxRuns = 3
 RleCounts = {0, 1, 3}
 BpGroups = {0, 1}
 Extra = {0, 1, 3}
SPECIFICATION Spec
INVARIANTS IsMeaning Bounded BytesAgree
PROPERTY Finishes
CHECK_DEADLOCK FALSE
