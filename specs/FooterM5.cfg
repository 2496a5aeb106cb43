SPECIFICATION Spec
CONSTANT MaxTokens = 5
INVARIANTS Agree Torn
CHECK_DEADLOCK FALSE
