SPECIFICATION Spec
CONSTANTS
  Inc = 6
  Sizes = {2, 3, 7}
  Aligns = {1, 4}
  MinBlock = 3
  BlockAlign = 2
  MaxFree = 2
  MaxRegions = 2
  ObjSize = 2
INVARIANT Inv
CHECK_DEADLOCK FALSE
