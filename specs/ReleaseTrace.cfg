CONSTANT Rules = {"release"}
SPECIFICATION Spec
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
