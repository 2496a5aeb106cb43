CONSTANTS Blocks = {1, 2, 3, 5} MaxLen = 4
SPECIFICATION Spec
INVARIANTS Inside NoFalseNegative OnlyPrescribed OneBitAWord
PROPERTY OnlyGrows
CHECK_DEADLOCK FALSE
