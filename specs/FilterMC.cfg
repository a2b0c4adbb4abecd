SPECIFICATION Spec
CONSTANTS Traces = {1, 2}
          Pos = {1, 2, 3}
          HashSet <- MCHash
          D = 2
          Procs = {1, 2, 3}
          MaxOps = 3
          MaxVal = 1
INVARIANTS Exact NoForget NoForgetNow NeverNegative RingBound Drained
CHECK_DEADLOCK FALSE
