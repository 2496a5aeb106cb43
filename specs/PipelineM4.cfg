SPECIFICATION Spec
CONSTANTS
  MaxPages = 4
INVARIANTS Same Contained OneError LogLen
PROPERTIES Terminates Frozen
CHECK_DEADLOCK FALSE
