CONSTANTS K = 7  C = 1  E = 2  N = 3
SPECIFICATION Spec
INVARIANT Exact
INVARIANT Live
CHECK_DEADLOCK FALSE
