SPECIFICATION Spec
CONSTANTS
 Obj = {a,b,c,d}
 Threads = {t1,t2,t3}
 B = 2
 Max = 4
 Cap0 = 2
 N = 3
INVARIANTS OneOwner Bounds PlunderIdle
SYMMETRY Sym
CHECK_DEADLOCK FALSE
