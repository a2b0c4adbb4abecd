SPECIFICATION Spec
CONSTANTS
  Sizes = {0, 1, 2, 5, 9}
  Intervals <- MCIntervals
  MaxPick = 7
  Quiet = 6
  MaxAllocs = 6
INVARIANT Inv
CHECK_DEADLOCK FALSE
