SPECIFICATION Spec
CONSTANT MaxTokens = 4
INVARIANTS Agree Torn
CHECK_DEADLOCK FALSE
