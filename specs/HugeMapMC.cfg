SPECIFICATION MapSpec
CONSTANTS N = 9 MaxReq = 3
INVARIANTS RunsSound
CHECK_DEADLOCK FALSE
