SPECIFICATION Spec
CONSTANTS
 R = 1
 M = 3
 L = 2
 H = 1
 Spans = {7}
 Classes = {5}
INVARIANTS Agree Search
CHECK_DEADLOCK FALSE
