SPECIFICATION Spec
CONSTANTS
  Sizes = {0, 1, 2, 5}
  Intervals <- MCIntervals
  MaxPick = 4
  Quiet = 6
  MaxAllocs = 6
INVARIANT Inv
CHECK_DEADLOCK FALSE
