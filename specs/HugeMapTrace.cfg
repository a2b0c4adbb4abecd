SPECIFICATION TSpec
CONSTANTS N = 4096 MaxReq = 64
INVARIANT TInv
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
