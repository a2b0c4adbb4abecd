SPECIFICATION Spec
CONSTANTS
 R = 1
 M = 1
 L = 4
 H = 2
 Spans = {7}
 Classes = {5}
INVARIANTS Agree Search
CHECK_DEADLOCK FALSE
