SPECIFICATION Spec
CONSTANTS Mut = {1, 2}
          Iter = {3}
          MaxIds = 4
INVARIANTS IterRight NoShare DataKept Reuse
CHECK_DEADLOCK FALSE
