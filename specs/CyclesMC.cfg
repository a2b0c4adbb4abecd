SPECIFICATION Spec
CONSTANTS W = 4
          S = 1
          Epochs = 3
INVARIANTS Sentinel AgeRight OrderRight
CHECK_DEADLOCK FALSE
