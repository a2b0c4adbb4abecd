SPECIFICATION Spec
CONSTANTS NH = 3 PH = 3
INVARIANTS Agree UsedIsBacked Totals
CHECK_DEADLOCK FALSE
