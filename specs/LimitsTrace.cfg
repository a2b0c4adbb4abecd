CONSTANT Rules = {"limit"}
SPECIFICATION Spec
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
