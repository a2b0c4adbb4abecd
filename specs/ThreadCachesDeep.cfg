SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2, 3}
  Totals = {12, 6}
  Objs = 4
  Depth = 10
INVARIANTS Sound Nothing Bound
CONSTRAINT Shallow
CHECK_DEADLOCK FALSE
