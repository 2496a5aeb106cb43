SPECIFICATION Spec
CONSTANTS
  MaxPages = 3
INVARIANTS Same Contained OneError LogLen
PROPERTIES Terminates Frozen
CHECK_DEADLOCK FALSE
