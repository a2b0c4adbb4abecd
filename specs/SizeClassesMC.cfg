SPECIFICATION Spec
CONSTANTS page = 8 maxsize = 40 hugepages = 8 nb = 90 large = 8 fine = 2 coarse = 4 bits = 4
INVARIANTS Exact Monotone Sufficient
CHECK_DEADLOCK FALSE
