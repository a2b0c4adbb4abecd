SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2}
  Totals = {12, 6}
  Objs = 3
  Depth = 8
INVARIANTS Sound Nothing Bound
CONSTRAINT Shallow
CHECK_DEADLOCK FALSE
