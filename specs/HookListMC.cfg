SPECIFICATION Spec
CONSTANTS Threads = {t1, t2, t3} Hooks = {h1, h2} Slots = 2 MaxOps = 2
SYMMETRY Sym
INVARIANTS EndCovers RegMatches TravSound
CHECK_DEADLOCK FALSE
