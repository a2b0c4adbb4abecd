CONSTANTS K = 6  C = 2  E = 2  N = 3
SPECIFICATION Spec
INVARIANT Exact
INVARIANT Live
CHECK_DEADLOCK FALSE
