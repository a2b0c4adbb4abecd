SPECIFICATION Spec
CONSTANTS
  Objs = {1, 2, 3, 4, 5}
  Ests = {0, 3, 5}
  Fracs = {0, 4, 6}
  Sessions = {1, 2}
INVARIANTS Exact Snapshot Session
PROPERTIES OnlyGrows
CHECK_DEADLOCK FALSE
