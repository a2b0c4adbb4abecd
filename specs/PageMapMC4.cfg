SPECIFICATION Spec
CONSTANTS
 R = 2
 M = 1
 L = 3
 H = 1
 Spans = {7}
 Classes = {5}
INVARIANTS Agree Search
CHECK_DEADLOCK FALSE
