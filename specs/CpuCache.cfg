CONSTANTS
  Cpus = {1, 2}
  Threads = {t1, t2}
  Limit = 4
  NObj = 1
  MaxCaps = 2
SPECIFICATION Spec
SYMMETRY Sym
INVARIANTS CpuConserved AllConserved Bounded ObjectsKept LimitsKept
CHECK_DEADLOCK FALSE
