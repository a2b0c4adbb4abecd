SPECIFICATION Spec
CONSTANTS Elems = {1, 2, 3, 4}
          N = 3
INVARIANTS Forward Backward Bits Size Found
CHECK_DEADLOCK FALSE
