INIT JInit
NEXT JNext
POSTCONDITION JDone
CHECK_DEADLOCK FALSE
