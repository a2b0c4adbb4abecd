SPECIFICATION Spec
CONSTANTS PH = 3
 HPs = {1, 2}
 Mode = FALSE
 Sizes = {1, 2}
INVARIANTS Totals Pieces
CHECK_DEADLOCK FALSE
