SPECIFICATION Spec
INVARIANT Sound
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
