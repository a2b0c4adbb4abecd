SPECIFICATION Spec
CONSTANTS
  Threads = {t1, t2}
  Cpus = {c1, c2}
  Items = {a, b}
  Cap = 2
  Fence = TRUE
  CheckStopped = TRUE
  Recheck = FALSE
  Restart = TRUE
  MaxResizes = 2
INVARIANTS ExactlyOnce WithinCapacity
SYMMETRY Symmetric
CHECK_DEADLOCK FALSE
