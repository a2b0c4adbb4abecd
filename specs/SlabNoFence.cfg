SPECIFICATION Spec
CONSTANTS
  Threads = {t1, t2}
  Cpus = {c1, c2}
  Items = {a, b}
  Cap = 2
  Fence = FALSE
  CheckStopped = TRUE
  Recheck = TRUE
  Restart = TRUE
  MaxResizes = 2
INVARIANTS ExactlyOnce WithinCapacity Excluded OwnCpu
SYMMETRY Symmetric
CHECK_DEADLOCK FALSE
