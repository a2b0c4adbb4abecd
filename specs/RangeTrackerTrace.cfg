SPECIFICATION TSpec
CONSTANT MaxN = 1
INVARIANT InRange
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
