CONSTANT HP = 256
SPECIFICATION Spec
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
