SPECIFICATION Spec
CONSTANTS N = 4 MaxReq = 2 MaxOps = 1 Base = 1
VIEW View
INVARIANTS TypeSound LimitSound
PROPERTIES OwnerKeeps NeverTwice LimitMoves
CHECK_DEADLOCK FALSE
