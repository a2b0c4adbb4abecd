CONSTANTS
  Cpus = {1, 2}
  Threads = {t1, t2}
  Limit = 5
  NObj = 2
  MaxCaps = 2
SPECIFICATION Spec
SYMMETRY Sym
INVARIANTS CpuConserved AllConserved Bounded ObjectsKept LimitsKept
CHECK_DEADLOCK FALSE
