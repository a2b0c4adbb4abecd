SPECIFICATION Spec
CONSTANTS
  T = 3
  Most = 2
  P = 4
  Sizes = {0, 1, 3, 4}
  Aligns = {1, 2, 4}
  Magic = 2
  Dflt = 2
  MaxAllocs = 5
INVARIANT Inv
CHECK_DEADLOCK FALSE
