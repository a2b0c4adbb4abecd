SPECIFICATION Spec
CONSTANTS K = 3 MaxEpoch = 6 MaxN = 4
INVARIANTS Covered SameWindow Bounded
CHECK_DEADLOCK FALSE
