SPECIFICATION TSpec
CONSTANTS P = 2 K = 3 Cpus = {1, 2} Ids = {1, 2, 3} CapCpu = 1 CapTransfer = 2
INVARIANTS OnePlace ReleasedUnused
PROPERTIES Refines
CHECK_DEADLOCK FALSE
