CONSTANTS Blocks = {1, 2, 3} MaxLen = 3
SPECIFICATION Spec
INVARIANTS Inside NoFalseNegative OnlyPrescribed OneBitAWord
PROPERTY OnlyGrows
CHECK_DEADLOCK FALSE
