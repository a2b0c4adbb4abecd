SPECIFICATION TSpec
CONSTANTS Base = 10
INVARIANT TInv
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
