CONSTANTS K = 6  C = 1  E = 1  N = 3
SPECIFICATION Spec
INVARIANT Exact
INVARIANT Live
CHECK_DEADLOCK FALSE
