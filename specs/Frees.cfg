SPECIFICATION Spec
CONSTANTS
  P = 32
  kMax = 32
  Bits = 0
INVARIANT Inv
CHECK_DEADLOCK FALSE
