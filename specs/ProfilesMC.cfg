SPECIFICATION Spec
CONSTANTS
  Objs = {1, 2, 3}
  Ests = {0, 3, 5}
  Fracs = {0, 4, 6}
  Sessions = {1}
INVARIANTS Exact Snapshot Session
PROPERTIES OnlyGrows
CHECK_DEADLOCK FALSE
