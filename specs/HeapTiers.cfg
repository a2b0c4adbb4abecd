SPECIFICATION TSpec
CONSTANTS P = 2 K = 2 Cpus = {1, 2} Ids = {1, 2} CapCpu = 1 CapTransfer = 2
INVARIANTS OnePlace ReleasedUnused
PROPERTIES Refines
CHECK_DEADLOCK FALSE
