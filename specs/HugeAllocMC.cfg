SPECIFICATION AllocSpec
CONSTANTS N = 7 MaxReq = 3
INVARIANTS Conserved RunsSound
PROPERTIES NeverTwice
CHECK_DEADLOCK FALSE
