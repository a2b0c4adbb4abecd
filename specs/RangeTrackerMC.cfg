SPECIFICATION Spec
CONSTANT MaxN = 7
CONSTRAINT LiveBound
INVARIANTS InRange FullyFree FitWhenever QueriesAgree
CHECK_DEADLOCK FALSE
