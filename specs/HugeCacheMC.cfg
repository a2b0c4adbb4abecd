SPECIFICATION Spec
CONSTANTS N = 2 MaxReq = 2 MaxOps = 2 Base = 1
VIEW View
CONSTRAINT Bounded
INVARIANTS TypeSound LimitSound
PROPERTIES OwnerKeeps NeverTwice LimitMoves
CHECK_DEADLOCK FALSE
