CONSTANTS MaxRuns = 2 Counts = {0, 1, 3} MaxIvs = 2 Ends = {0, 1, 3, 4, 8}
SPECIFICATION Spec
INVARIANTS IsPart Remaining
PROPERTY Finishes
CHECK_DEADLOCK FALSE
