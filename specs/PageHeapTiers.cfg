SPECIFICATION Spec
CONSTANTS HP = 3 NHP = 3 Small = 1 RLen = 0 MaxN = 5 Fails = TRUE
INVARIANTS Disjoint InSystem BackedUse Consistent Totals TiersRight
CHECK_DEADLOCK FALSE
