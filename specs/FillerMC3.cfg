SPECIFICATION Spec
CONSTANTS PH = 4
 HPs = {1, 2}
 Mode = FALSE
 Sizes = {1, 3}
INVARIANTS Totals Pieces
CHECK_DEADLOCK FALSE
